"""Options of loading.  For every option an arbitrary object is given to App.load (or left out) over documents of both versions that
load further documents while they are prepared, resolved and used; the interpreter follows each of them to the places where it has to
decide: what is fetched and through what, which names operations and models get, what converts values and payloads."""
from .common import *
from . import c13

HOOKED = 'http://elsewhere/'


def tree(base='http://h.com/d/'):
    """a 2.0 document with references to two others"""
    return [(base + 'swagger.json', opdoc([{'$ref': 'x.json#/p'}], tags=['t'], method='post', oid='op1', consumes=['application/json'], produces=['application/json'],
                                          root={'definitions': {'M': {'$ref': 'y.json#/m'}}}, responses={'200': {'description': 'd', 'schema': {'$ref': '#/definitions/M'}, 'headers': {'X-A': {'type': 'string'}}}})),
            (base + 'x.json', {'p': {'name': 'b', 'in': 'body', 'schema': {'type': 'string'}}, 'late': {'type': 'integer'}}),
            (base + 'y.json', {'m': {'type': 'string'}})]


def old_tree(base='http://h.com/d/'):
    """a 1.2 resource list with two resources"""
    res = lambda n: {'swaggerVersion': '1.2', 'basePath': 'http://h.com', 'resourcePath': '/' + n, 'apis': [{'path': '/' + n, 'operations': [
        {'method': 'GET', 'nickname': 'n' + n, 'type': 'M', 'parameters': [{'name': 'q', 'paramType': 'query', 'type': 'string'}]}]}], 'models': {'M': {'id': 'M', 'properties': {'a': {'$ref': 'N'}}}, 'N': {'id': 'N', 'properties': {'z': {'type': 'string'}}}}}
    return [(base + 'api-docs', {'swaggerVersion': '1.2', 'apis': [{'path': '/r'}, {'path': '/s'}]}), (base + 'api-docs/r', res('r')), (base + 'api-docs/s', res('s'))]


def served(s, docs, seen, cls='G', base='SimpleGetter'):
    """a getter class that serves these documents and records what it is made for and asked for"""
    ds = [(u, s.obj(d)) for u, d in docs]

    def load(I, a, kw):
        seen.append(a[1])
        for u, d in ds:
            if s.same(u, a[1]):
                return d
        raise I.exc('ValueError', 'no document at ' + show(a[1]))
    return s.I.make_class(cls, [s.get('pyswagger.getter:' + base)], {'load': Builtin('load', load)})


def resolver(s, docs, seen, hook=None):
    return s.must('pyswagger.resolve:Resolver', hook, default_getter=served(s, docs, seen))


def load(s, url, **kw):
    return s.call(s.attr(s.get('pyswagger.core:App'), 'load'), url, **kw)


def prepared(s, o):
    s.check(o.ok, 'loading', lambda: 'loading fails: %s' % show(o.exc), o.site)
    p = s.meth(o.value, 'prepare')
    s.check(p.ok, 'loading', lambda: 'preparing fails: %s' % show(p.exc), p.site)
    return o.value


def fetched(s, seen, want, rule, what):
    got = [show(x) for x in seen]
    s.check(sorted(got) == sorted(show(x) for x in want), rule, lambda: '%s: fetched %s, expected %s' % (what, ', '.join(got) or 'nothing', ', '.join(show(x) for x in want)))


def check(run):
    # url ------------------------------------------------------------------------------------------------
    def urls(s):
        w = s.choice('url', 'absolute path', 'file url', 'http', 'https')
        d = '{"swagger": "2.0", "info": {"title": "t", "version": "1"}, "paths": {}}'
        given, place, want = {'absolute path': ('/d/swagger.json', ('files', '/d/swagger.json'), 'file:///d/swagger.json'),
                              'file url': ('file:///d/swagger.json', ('files', '/d/swagger.json'), 'file:///d/swagger.json'),
                              'http': ('http://h.com/d/swagger.json', ('net', 'http://h.com/d/swagger.json'), 'http://h.com/d/swagger.json'),
                              'https': ('https://h.com/d/swagger.json', ('net', 'https://h.com/d/swagger.json'), 'https://h.com/d/swagger.json')}[w]
        storage(s, **{place[0]: [(place[1], d)]})
        how = s.choice('how', 'load', 'create')
        o = s.call(s.attr(s.get('pyswagger.core:App'), how), given)
        s.check(o.ok, 'url', lambda: '%s is not accepted: %s' % (given, show(o.exc)), o.site)
        s.same_ob(s.attr(o.value, 'url'), want, 'url', 'the url of the application')
        s.same_ob(s.item(s.attr(o.value, 'schemes'), 0), want.split(':')[0], 'url', 'the scheme of the application')
    run.explore('url', urls, mods=('pyswagger',))

    def nowhere(s):
        u = s.choice('url', '//h.com', '//h.com/a.json', '?q', '#f', '/none', 'http://h.com/none.json')
        storage(s)
        o = s.call(s.attr(s.get('pyswagger.core:App'), 'load'), u)
        s.check(not o.ok, 'url', lambda: '%s is accepted' % u)
        if u.startswith(('//', '?', '#')) or u == '/none':
            s.check(o.is_exc('ValueError'), 'url', lambda: '%s raises %s' % (u, show(o.exc)), o.site)
    run.explore('no document there', nowhere)

    # getter ---------------------------------------------------------------------------------------------
    def getter(s):
        """a getter is used for the document and, for 1.2, its resources; what is loaded later goes through the resolver"""
        v = s.choice('version', '2.0', '1.2')
        docs = tree() if v == '2.0' else old_tree()
        mine, rest = [], []
        first = docs if v == '1.2' else docs[:1]
        r = resolver(s, docs[1:] if v == '2.0' else [], rest)
        G = served(s, first, mine)
        how = s.choice('getter', 'class', 'instance') if v == '2.0' else 'class'
        o = load(s, docs[0][0], getter=G if how == 'class' else s.must(G, docs[0][0]), resolver=r)
        fetched(s, mine, [u for u, _ in first], 'getter', 'through the given getter')
        fetched(s, rest, [], 'getter', 'through the resolver while loading')
        prepared(s, o)
        fetched(s, mine, [u for u, _ in first], 'getter', 'through the given getter')
        fetched(s, rest, [u for u, _ in docs[1:]] if v == '2.0' else [], 'getter', 'through the resolver')
    run.explore('getter', getter)

    def later(s):
        """documents that are needed later come through the given resolver, once"""
        docs, seen = tree(), []
        app = prepared(s, load(s, docs[0][0], resolver=resolver(s, docs, seen)))
        fetched(s, seen, [u for u, _ in docs], 'resolver', 'through the given resolver')
        C = s.get('pyswagger.spec.v2_0.parser:SchemaContext')
        u = 'http://h.com/d/x.json#/late'
        x = s.must(s.attr(app, 'resolve'), u, C)
        s.same_ob(s.attr(x, 'type'), 'integer', 'resolver', 'a part resolved later')
        s.must(s.attr(app, 'resolve'), u, C)
        fetched(s, seen, [u for u, _ in docs], 'resolver', 'through the given resolver, each document once')
    run.explore('resolver', later)

    def own(s):
        """a resolver of another class: every load goes through its resolve, with the getter of the call"""
        docs = tree()
        calls = []
        inner = resolver(s, docs, [])
        g = s.must(served(s, docs[:1], []), docs[0][0]) if s.choice('getter', 'none', 'given') == 'given' else None

        def f(a, kw):
            calls.append((a[0], a[1] if len(a) > 1 else kw.get('getter')))
            return s.must(s.attr(inner, 'resolve'), *a, **kw)
        r = stub(s, 'MyResolver', resolve=f)
        kw = {'getter': g} if g is not None else {}
        prepared(s, load(s, docs[0][0], resolver=r, **kw))
        s.check(len(calls) == 3, 'resolver', lambda: 'the given resolver is asked for %s' % ', '.join(show(x) for x, _ in calls))
        s.same_ob(calls[0][0], docs[0][0], 'resolver', 'the first reference')
        if g is not None:
            s.check(calls[0][1] is g or s.same(calls[0][1], g), 'getter', 'the getter is not passed to the resolver')
        for c, (u, p) in zip(sorted(calls[1:], key=lambda c: show(c[0])), [(docs[1][0], '#/p'), (docs[2][0], '#/m')]):
            s.same_ob(c[0], u + p, 'resolver', 'a later reference')
            s.check(s.R(c[1]) is None, 'getter', 'the getter of the document is used for others')
    run.explore('resolver of another class', own)

    # hook -----------------------------------------------------------------------------------------------
    def hook(s):
        v = s.choice('version', '2.0', '1.2')
        base = 'http://h.com/d/'
        docs = tree(base) if v == '2.0' else old_tree(base)
        there = [(HOOKED + u[len(base):], d) for u, d in docs]
        hooked = []

        def f(I, a, kw):
            hooked.append(a[0])
            for u, _ in docs:
                if s.same(u, a[0]):
                    return HOOKED + u[len(base):]
            raise I.exc('ValueError', 'the hook is asked for ' + show(a[0]))
        h = Builtin('hook', f)
        w = s.choice('through', 'getter', 'network') if v == '1.2' else 'network'
        seen = []
        if w == 'network':
            import json
            storage(s, net=[(u, json.dumps(d)) for u, d in there])
            o = load(s, docs[0][0], url_load_hook=h)
        else:
            o = load(s, docs[0][0], url_load_hook=h, getter=served(s, there, seen))
        app = prepared(s, o)
        for u, _ in docs:
            s.check(any(s.same(u, x) for x in hooked), 'hook', lambda: 'the hook is not asked for %s' % u)
        s.same_ob(s.attr(app, 'url'), docs[0][0], 'hook', 'the url of the application')
        if w == 'getter':
            fetched(s, seen, [u for u, _ in there], 'hook', 'through the getter')
        if v == '2.0':
            # documents keep the identity of their own url
            m = s.attr(s.attr(schema_of(s, app, 'M'), 'ref_obj'), 'type')
            s.same_ob(m, 'string', 'hook', 'the referenced model')
            s.same_ob(s.attr(schema_of(s, app, 'M'), '$ref'), base + 'y.json#/m', 'hook', 'the reference')
    run.explore('hook', hook)

    def both(s):
        o = load(s, URL, url_load_hook=Builtin('h', lambda I, a, kw: a[0]), resolver=s.must('pyswagger.resolve:Resolver'))
        s.check(o.is_exc('ValueError'), 'rejected', lambda: 'a hook and a resolver: %r' % o, o.site)
    run.explore('hook and resolver', both)

    # separator ------------------------------------------------------------------------------------------
    def separator(s):
        sep = s.choice('separator', None, '.', '::')
        kw = {} if sep is None else {'sep': sep}
        x = sep or '!##!'
        v = s.choice('version', '2.0', '1.2')
        if v == '2.0':
            docs = [(URL, doc({'/a': {'get': {'operationId': 'op', 'tags': ['t', 'z'], 'responses': resp()}}, '/b': {'get': {'operationId': 'op', 'tags': ['u'], 'responses': resp()}}, '/c': {'get': {'operationId': 'lone', 'responses': resp()}}}))]
            app = prepared(s, load(s, URL, resolver=world(s, docs), **kw))
            op = s.attr(app, 'op')
            for t, p in (('t', '/a'), ('u', '/b')):
                for k in (t + x + 'op', (t, 'op')):
                    o = s.meth(op, '__getitem__', k)
                    s.check(o.ok, 'separator', lambda: 'no operation %r with separator %r: %s' % (k, x, show(o.exc)), o.site)
                    s.same_ob(s.attr(o.value, 'path'), p, 'separator', 'the operation %r' % (k,))
            o = s.meth(op, '__getitem__', 'lone')
            s.check(o.ok, 'separator', lambda: 'no operation lone: %s' % show(o.exc), o.site)
            o = s.meth(op, '__getitem__', 'op')
            s.check(o.is_exc('ValueError'), 'separator', lambda: 'an ambiguous name: %r' % o, o.site)
            ks = sorted(show(k) for k in s.items(s.builtin('list', op)))
            s.check(ks == sorted(show(k) for k in ('t' + x + 'op', 'u' + x + 'op', 'lone')), 'separator', lambda: 'operations are named %s' % ', '.join(ks))
        else:
            docs = old_tree()
            app = prepared(s, load(s, docs[0][0], resolver=world(s, docs), **kw))
            for r in 'rs':
                for k in (r + x + 'n' + r, (r, 'n' + r), 'n' + r):
                    o = s.meth(s.attr(app, 'op'), '__getitem__', k)
                    s.check(o.ok, 'separator', lambda: 'no operation %r with separator %r: %s' % (k, x, show(o.exc)), o.site)
                    s.same_ob(s.attr(o.value, 'path'), '/' + r, 'separator', 'the operation %r' % (k,))
                for k in (r + x + 'M', (r, 'M')):
                    o = s.meth(s.attr(app, 'm'), '__getitem__', k)
                    s.check(o.ok, 'separator', lambda: 'no model %r with separator %r: %s' % (k, x, show(o.exc)), o.site)
                    s.same_ob(s.attr(o.value, 'name'), 'M', 'separator', 'the name of model %r' % (k,))
                    a = s.item(s.attr(o.value, 'properties'), 'a')
                    s.check(s.R(s.attr(a, 'ref_obj')) is not None, 'separator', 'a reference between models is not resolved')
                    s.same_ob(s.attr(s.attr(a, 'ref_obj'), 'name'), 'N', 'separator', 'the name of the referenced model')
                o = s.call(s.attr(app, 'resolve'), s.cat('#/definitions/', r + x + 'M'))
                s.check(o.ok, 'separator', lambda: 'the definition of %s with separator %r is not found: %s' % (r, x, show(o.exc)), o.site)
    run.explore('separator', separator)

    # primitives -----------------------------------------------------------------------------------------
    def factory(s):
        """every conversion is done by the given factory, for this application and the parts it loads"""
        docs = tree()
        made = []

        def produce(a, kw):
            made.append((a[0], a[1]))
            return s.token('made%d' % len(made))
        f = stub(s, 'Factory', produce=produce, is_primitive=lambda a, kw: True)
        app = prepared(s, load(s, docs[0][0], resolver=world(s, docs), prim=f))
        s.check(s.R(s.attr(app, 'prim_factory')) is s.R(f), 'factory', 'the factory of the application is another one')
        v = s.token('v')
        q, r = s.items(s.I_call(op_of(s, app), {'b': v}).value)
        s.check(len(made) == 1 and s.same(made[0][1], v), 'factory', 'the value of a parameter is not made by the given factory')
        s.same_ob(s.item(s.item(s.attr(q, '_p'), 'body'), 'b'), s.token('made1'), 'factory', 'the value of the body')
        h = s.token('h')
        codec = stub(s, 'Codec', unmarshal=lambda a, kw: s.token('plain'), marshal=lambda a, kw: s.token('wire'))
        s.must(s.attr(s.attr(app, 'mime_codec'), 'register'), 'application/json', codec)
        s.must(s.attr(r, 'apply_with'), status=200, raw=s.token('raw'), header=s.dict(('X-A', h)))
        s.check(len(made) == 3, 'factory', lambda: 'header and data of a response: %d values made by the given factory' % (len(made) - 1))
        s.same_ob(made[1][1], h, 'factory', 'the value of the header')
        s.same_ob(made[2][1], s.token('plain'), 'factory', 'the value of the payload')
        s.same_ob(s.attr(r, 'data'), s.token('made3'), 'factory', 'the data of the response')
    run.explore('primitive factory', factory)

    def extended(s):
        """a factory with an own type keeps the others"""
        docs = [(URL, opdoc([{'name': 'x', 'in': 'query', 'type': 'string', 'format': 'mine'}, {'name': 'y', 'in': 'query', 'type': 'array', 'items': {'type': 'integer'}}]))]
        f = s.must('pyswagger.primitives:Primitive')
        s.must(s.attr(f, 'register'), 'string', 'mine', Builtin('mine', lambda I, a, kw: s.cat('<', a[1], '>')))
        app = prepared(s, load(s, URL, resolver=world(s, docs), prim=f))
        q = s.item(s.I_call(op_of(s, app), {'x': s.token('v'), 'y': s.list(1, 2)}).value, 0)
        got = {show(s.items(p)[0]): s.items(p)[1] for p in s.items(s.attr(q, 'query'))}
        s.same_ob(got[show('x')], s.cat('<', s.token('v'), '>'), 'factory', 'the value of an own type')
        s.same_ob(got[show('y')], '1,2', 'factory', 'the value of an array')
        o = s.I_call(op_of(s, app_of(s, docs[0][1])), {'x': s.token('v'), 'y': s.list(1, 2)})
        s.check(not o.ok or not s.same(s.items(s.items(s.attr(s.item(o.value, 0), 'query'))[0])[1], s.cat('<', s.token('v'), '>')), 'factory', 'the type is used without the factory')
    run.explore('an extended factory', extended)

    # codec ----------------------------------------------------------------------------------------------
    def codec(s):
        docs = tree()
        asked = []

        def one(n):
            def f(a, kw):
                asked.append((n, a, kw))
                return s.token(n)
            return f
        c = stub(s, 'Codecs', marshal=one('marshal'), unmarshal=one('unmarshal'))
        app = prepared(s, load(s, docs[0][0], resolver=world(s, docs), mime_codec=c))
        s.check(s.R(s.attr(app, 'mime_codec')) is s.R(c), 'codec', 'the codec of the application is another one')
        q, r = s.items(s.I_call(op_of(s, app), {'b': s.token('v')}).value)
        s.must(s.attr(q, 'prepare'))
        s.check([n for n, _, _ in asked] == ['marshal'], 'codec', 'the payload is not made by the given codec')
        s.same_ob(asked[0][1][0], 'application/json', 'codec', 'the format')
        s.same_ob(s.attr(q, 'data'), s.token('marshal'), 'codec', 'the payload')
        s.must(s.attr(r, 'apply_with'), status=200, raw=s.token('raw'))
        s.check([n for n, _, _ in asked] == ['marshal', 'unmarshal'], 'codec', 'the answer is not read by the given codec')
        s.same_ob(asked[1][1][1], s.token('raw'), 'codec', 'what is read')
        s.same_ob(s.attr(r, 'data'), s.token('unmarshal'), 'codec', 'the data')
    run.explore('codec', codec)

    # parser ---------------------------------------------------------------------------------------------
    def parser(s):
        """a parser is used for documents without version"""
        w = s.choice('document', 'part', 'part of an unknown version', 'other version', 'complete')
        src = '''
import six
from pyswagger.spec.base import Context, BaseObj, FieldMeta
class Own(six.with_metaclass(FieldMeta, BaseObj)):
    __swagger_version__ = %s
    __swagger_fields__ = {'name': None}
class v(Context):
    __swagger_ref_object__ = Own
''' % ("'2.0'" if w != 'part of an unknown version' else "'7'")
        m = s.client(src).value
        P = s.attr(m, 'v')
        n = s.token('n')
        d = {'name': n} if w != 'complete' else doc()
        if w == 'other version':
            d['swagger'] = '3.0'
        o = load(s, URL, resolver=world(s, [(URL, d)]), parser=P)
        if w in ('part of an unknown version', 'other version'):
            s.check(o.is_exc('NotImplementedError'), 'parser', lambda: 'an unknown version: %r' % o, o.site)
            return
        s.check(o.ok, 'parser', lambda: 'loading fails: %s' % show(o.exc), o.site)
        s.same_ob(s.attr(o.value, 'version'), '2.0', 'parser', 'the version')
        raw = s.R(s.attr(o.value, 'raw'))
        if w == 'part':
            s.check(raw.cls is s.R(s.attr(m, 'Own')), 'parser', lambda: 'the document is parsed as %s' % raw.cls.name)
            s.same_ob(s.attr(raw, 'name'), n, 'parser', 'a field')
        else:
            s.check(raw.cls.name == 'Swagger', 'parser', lambda: 'a complete document is parsed as %s' % raw.cls.name)
    run.explore('parser', parser)

    def parts(s):
        """the parser given when resolving is the one that reads the part"""
        docs = tree()
        app = prepared(s, load(s, docs[0][0], resolver=world(s, docs + [('http://h.com/d/z.json', {'a': {'type': 'string', 'description': 'd', 'name': 'n', 'in': 'query'}})])))
        c = s.choice('parser', 'Schema', 'Parameter', 'Response', 'Items')
        o = s.call(s.attr(app, 'resolve'), 'http://h.com/d/z.json#/a', s.get('pyswagger.spec.v2_0.parser:%sContext' % c))
        s.check(o.ok, 'parser', lambda: 'resolving a part: %s' % show(o.exc), o.site)
        x = s.I.U(s.R(o.value))
        s.check(x.cls.name == c, 'parser', lambda: 'the part is read as %s' % x.cls.name)
    run.explore('parser of a part', parts)

    # defaults -------------------------------------------------------------------------------------------
    def defaults(s):
        storage(s, net=[('http://h.com/d/swagger.json', '{"swagger": "2.0", "info": {"title": "t", "version": "1"}, "paths": {"/a": {"get": {"operationId": "o", "tags": ["t"], "responses": {}}}}}')])
        app = prepared(s, load(s, 'http://h.com/d/swagger.json'))
        for k, c in (('prim_factory', 'Primitive'), ('mime_codec', 'MimeCodec')):
            x = s.R(s.attr(app, k))
            s.check(x.cls.name == c, 'defaults', lambda: 'the default of %s is a %s' % (k, x.cls.name))
        o = s.meth(s.attr(app, 'op'), '__getitem__', 't!##!o')
        s.check(o.ok, 'defaults', 'the default separator is not !##!', o.site)
    run.explore('defaults', defaults)

    def creating(s):
        """create loads and prepares, strictly unless told otherwise"""
        bad = s.choice('document', 'good', 'bad') == 'bad'
        t = '{"swagger": "2.0", "info": {"title": "t", "version": "1"}, "paths": {}, "definitions": {"M": {"type": "object"%s, "properties": {"p": {"type": "string", "readOnly": true}}}}}' % (', "required": ["p"]' if bad else '')
        storage(s, net=[('http://h.com/d/swagger.json', t)])
        f = s.attr(s.get('pyswagger.core:App'), s.choice('how', 'create', '_create_'))
        st = s.choice('strict', None, True, False)
        o = s.call(f, 'http://h.com/d/swagger.json') if st is None else s.call(f, 'http://h.com/d/swagger.json', strict=st)
        if bad and st is not False:
            s.check(o.is_exc('ValidationError'), 'strict', lambda: 'an invalid document: %r' % o, o.site)
        else:
            s.check(o.ok, 'strict', lambda: 'creating fails: %s' % show(o.exc), o.site)
            s.check(s.R(s.attr(o.value, 'root')) is not None, 'strict', 'the application is not prepared')
    run.explore('create', creating)
