"""Decoding.  Getters of every kind deliver text, bytes, dicts or anything else; which of the two parsers gets which text, what
comes back, and what happens to text that neither understands.  YAML documents (a model of the parser gives the structure that
YAML has for the text) with numeric keys wherever a document has names: status codes of every operation, shared responses and
references to them, in one document and across documents."""
from absint import lib
from .common import *

OTHER = 'http://h.com/other.yaml'


def yaml_model(I, a, k, name):
    I.event('yaml', a, k)
    v = I.R(a[0])
    if isinstance(v, Handle):
        v = v.content
    f = I.F.misc.get('yaml')
    if f is not None:
        return f(I, I.R(v))
    return T('yaml', I.R(v), kinds=STR)


for _n in ('yaml.load', 'yaml.safe_load', 'yaml.full_load', 'yaml.unsafe_load'):
    lib.LIB[_n] = lambda I, a, k, n=_n: yaml_model(I, a, k, n)


def delivering(s, v, base='pyswagger.getter:SimpleGetter'):
    return s.I.make_class('Delivering', [s.get(base)], {'load': Builtin('load', lambda I, a, kw: v)})


def fetch(s, v):
    g = s.I.call(delivering(s, v), ['http://h.com/x'], {})
    return s.meth(g, '__next__')


def check(run):
    kinds(run)
    text(run)
    sources(run)
    found(run)
    numeric(run)
    across(run)


def kinds(run):
    def body(s):
        what = s.choice('delivered', 'dict', 'empty dict', 'list', 'int', 'float', 'bool', 'none', 'tuple', 'object', 'set')
        v = {'dict': lambda: s.dict(('a', s.opaque('x'))), 'empty dict': s.dict, 'list': lambda: s.list('{', '}'), 'int': lambda: s.sym('i', 'int'), 'float': lambda: s.sym('f', 'float'),
             'bool': lambda: s.sym('b', 'bool'), 'none': lambda: None, 'tuple': lambda: ('a', 'b'), 'object': lambda: s.opaque('o'), 'set': lambda: s.obj({'a'})}[what]()
        o = fetch(s, v)
        if what.endswith('dict'):
            s.check(o.ok, 'dict', lambda: 'a dict was not taken: %r' % (o,), o.site)
            s.check(s.I.U(s.R(o.value)) is s.I.U(v), 'dict', 'a dict was not used as it is')
        else:
            s.check(o.is_exc('ValueError'), 'kind', lambda: '%s was delivered, specified ValueError, %r' % (what, o), o.site)
        s.check(not s.events('json.loads', 'yaml'), 'parsed', lambda: 'a parser is called for %s' % what)
    run.explore('what is delivered', body)


def text(run):
    def body(s):
        """any text"""
        t = s.choice('text', s.cat('{', s.sym('rest', 'str')), s.cat(s.token('first', nochars='{'), s.sym('rest', 'str')), '', '{', 'a', ' {', '[', s.cat('swagger: ', s.sym('rest', 'str')), s.cat('# {', s.sym('rest', 'str')),
                     s.cat('\n{', s.sym('rest', 'str')), s.cat('---\n', s.sym('rest', 'str')), s.cat('"', s.sym('rest', 'str')))
        given = t
        if s.choice('as', 'text', 'bytes') == 'bytes':
            given = s.I.mk_encode(t, 'utf-8')
        js = s.truth(s.must(s.attr(t, 'startswith'), '{'))
        o = fetch(s, given)
        calls = s.events('json.loads', 'yaml')
        if js and isinstance(t, str):
            s.check(not o.ok, 'undecodable', lambda: '%s was read as %r' % (show(t), o))
            return
        if js and not o.ok:
            s.check([e.name for e in calls] == ['json.loads'] and not o.is_exc('StopIteration'), 'format', lambda: 'the text %s is read as %s: %r' % (show(t), [e.name for e in calls], o))
            return
        s.check(o.ok, 'accept', lambda: 'the text %s: %r' % (show(t), o), o.site)
        s.check([e.name for e in calls] == ['json.loads' if js else 'yaml'], 'format', lambda: 'the text %s is read as %s' % (show(t), [e.name for e in calls]))
        s.same_ob(calls[0].args[0], t, 'decoded', 'text given to the parser')
        if not js:
            s.same_ob(o.value, T('yaml', s.R(t), kinds=STR), 'parsed', 'the document')
        elif isinstance(s.R(o.value), Term):
            s.check(s.R(o.value).op == 'json.loads', 'parsed', lambda: 'the document is %s' % show(o.value))
    run.explore('texts', body)

    def concrete(s):
        t, want = s.choice('text', ('{"a": "\u00e9\u4e2d"}', ('a', '\u00e9\u4e2d')), ('{"a": "x"}', ('a', 'x')), ('{"200": "x"}', ('200', 'x')))
        o = fetch(s, t.encode('utf-8') if s.choice('as', 'text', 'bytes') == 'bytes' else t)
        s.check(o.ok, 'accept', lambda: 'the text %s: %r' % (show(t), o), o.site)
        s.same_ob(s.item(o.value, want[0]), want[1], 'parsed', 'the document')
        s.check(s.len(o.value) == 1, 'parsed', 'the document has other contents')
    run.explore('JSON', concrete)

    def bad(s):
        """undecodable text is an error"""
        def fail(I, v):
            raise I.exc('YAMLError', 'bad')
        s.I.F.misc['yaml'] = fail
        t = s.choice('text', '{', '{"a": }', '{]', '{"a": 1', 'a: b: c', '\t', b'{', b'{"a": "\xff"}', b'\xff\xfe{', b'a: \xe9')
        o = fetch(s, t)
        s.check(not o.ok and not o.is_exc('StopIteration'), 'undecodable', lambda: '%s was read: %r' % (show(t), o))
    run.explore('undecodable text', bad)


UTF = '{"swagger": "2.0", "paths": {}, "info": {"title": "\u00e9\u4e2d"}}'
YML = 'swagger: "2.0"\npaths: {}\ninfo:\n  title: \u00e9\u4e2d\n'


def sources(run):
    """each getter decodes what it reads: the content decides, not the name"""
    def body(s):
        ext = s.choice('extension', 'json', 'yaml', 'yml')
        fmt = s.choice('content', 'JSON', 'YAML')
        via = s.choice('read through', 'a local path', 'a file URL', 'the web', 'LocalGetter', 'UrlGetter', 'DictGetter text', 'DictGetter bytes', 'DictGetter dict', 'resolver')
        f = name(s, 'f')
        t = UTF if fmt == 'JSON' else YML
        doc_ = {'swagger': '2.0', 'paths': {}, 'info': {'title': '\u00e9\u4e2d'}}

        def yam(I, v):
            s.check(s.same(v, YML), 'decoded', lambda: 'the text read as YAML is %s' % show(v))
            return s.obj(doc_)
        s.I.F.misc['yaml'] = yam
        p = s.cat('/d/', f, '.', ext)
        u = s.cat('http://h.com/', f, '.', ext)
        storage(s, [(p, t.encode('utf-8'))], [(u, t.encode('utf-8'))])
        load = s.attr(s.get('pyswagger.core:App'), 'load')
        if via == 'a local path':
            o = s.call(load, p)
        elif via == 'a file URL':
            o = s.call(load, s.cat('file://', p))
        elif via == 'the web':
            o = s.call(load, u)
        elif via == 'LocalGetter':
            o = s.call(load, p, getter=s.get('pyswagger.getter:LocalGetter')) if s.choice('getter', 'class', 'instance') == 'class' else s.call(load, p, getter=s.must('pyswagger.getter:LocalGetter', p))
        elif via == 'UrlGetter':
            o = s.call(load, u, getter=s.get('pyswagger.getter:UrlGetter'))
        elif via == 'resolver':
            o = s.call(load, u, resolver=s.must('pyswagger.resolve:Resolver', None, s.get('pyswagger.getter:UrlGetter')))
        else:
            v = {'text': t, 'bytes': t.encode('utf-8'), 'dict': s.obj(doc_)}[via.split()[1]]
            o = s.call(load, u, getter=s.must('pyswagger.getter:DictGetter', s.list(u), s.dict((u, v))))
        s.check(o.ok, 'accept', lambda: 'a %s document %s.%s through %s: %r' % (fmt, show(f), ext, via, o), o.site)
        s.same_ob(s.attr(s.attr(s.attr(o.value, 'root') or s.attr(o.value, 'raw'), 'info'), 'title'), '\u00e9\u4e2d', 'parsed', 'the title of a %s document through %s' % (fmt, via))
    run.explore('sources', body)


def found(run):
    """well-known names and extensions"""
    names_ = ('resource_list.json', 'swagger.json', 'swagger.yaml', 'swagger.yml')

    def body(s):
        d = s.choice('folder', s.cat('/', name(s, 'd')), '/a b', '/x.d')
        n = s.choice('file', *names_)
        storage(s, [(s.cat(d, '/', n), '{"swagger": "2.0", "n": "%s"}' % n), (s.cat(d, '/other.json'), '{"n": "other"}')])
        given = s.choice('given', 'folder', 'folder with a slash', 'file', 'file URL of the folder')
        p = {'folder': d, 'folder with a slash': s.cat(d, '/'), 'file': s.cat(d, '/', n), 'file URL of the folder': s.cat('file://', s.I.call_ext('urllib.parse.quote', [d], {}))}[given]
        o = s.call('pyswagger.getter:LocalGetter', p)
        s.check(o.ok, 'found', lambda: 'a getter for %s with %s: %r' % (show(p), n, o), o.site)
        o = s.meth(o.value, '__next__')
        s.check(o.ok, 'found', lambda: 'a getter for %s with %s: %r' % (show(p), n, o), o.site)
        s.same_ob(s.item(o.value, 'n'), n, 'found', 'the document of a getter for %s' % show(p))
    run.explore('well-known names', body)

    def pointed(s):
        """exactly the file that is pointed at, next to others"""
        d, f = name(s, 'd'), name(s, 'f')
        ext = s.choice('extension', 'json', 'yaml', 'yml')
        files = [(s.cat('/', d, '/', f, '.', e), '{"n": "%s"}' % e) for e in ('json', 'yaml', 'yml')] + [(s.cat('/', d, '/', n), '{"n": "%s"}' % n) for n in names_]
        storage(s, files)
        g = s.must('pyswagger.getter:LocalGetter', s.cat('/', d, '/', f, '.', ext))
        o = s.meth(g, '__next__')
        s.check(o.ok, 'found', lambda: '%r' % (o,), o.site)
        s.same_ob(s.item(o.value, 'n'), ext, 'found', 'the document of a getter for a .%s file' % ext)
        s.check(s.meth(g, '__next__').is_exc('StopIteration'), 'once', 'a getter delivers its document once')
    run.explore('pointed at', pointed)


METHODS = 'get put post delete options head patch'.split()


def ydoc(s, how, table):
    """the getter for url -> python structure; as dicts or as YAML text"""
    us = list(table)
    texts = {u: 'swagger: text of %s' % u for u in us}

    def yam(I, v):
        for u in us:
            if v == texts[u]:
                return s.obj(table[u])
        raise Inconclusive('YAML of %s' % show(v))
    s.I.F.misc['yaml'] = yam

    def load(I, a, kw):
        for u in us:
            if s.same(u, a[1]):
                return s.obj(table[u]) if how == 'dict' else texts[u] if how == 'text' else texts[u].encode()
        raise I.exc('ValueError', 'no document')
    G = s.I.make_class('YamlGetter', [s.get('pyswagger.getter:SimpleGetter')], {'load': Builtin('load', load)})
    return s.must('pyswagger.resolve:Resolver', None, G)


def keys(s, d):
    return sorted(show(s.R(k)) for k, _ in s.I.U(s.R(d)).ents.values())


def numeric(run):
    """status codes as numbers work like their text form, in every operation and in every form of the document"""
    def body(s):
        how = s.choice('document', 'dict', 'text', 'bytes')
        m = s.choice('method', *METHODS)
        x, y, z = s.token('x'), s.token('y'), s.token('z')
        d = doc({'/a': {m: {'operationId': 'op1', 'responses': {200: {'description': x}, '201': {'description': 'text'}, 404: {'description': y, 'schema': {'type': 'string'}}, 'default': {'description': z}}}},
                 '/b': {'get': {'operationId': 'op2', 'responses': {200: {'description': 'other'}}}}})
        app = s.must(s.attr(s.get('pyswagger.core:App'), 'load'), URL, resolver=ydoc(s, how, {URL: d}))
        o = s.meth(app, 'prepare')
        s.check(o.ok, 'prepare', lambda: 'preparing a document with numeric codes (%s): %r' % (how, o), o.site)
        op = op_of(s, app)
        rs = s.attr(op, 'responses')
        s.check(keys(s, rs) == sorted(show(k) for k in ('200', '201', '404', 'default')), 'codes', lambda: 'the codes of the responses are %s' % keys(s, rs))
        for k, w in (('200', x), ('201', 'text'), ('404', y), ('default', z)):
            s.same_ob(s.attr(s.item(rs, k), 'description'), w, 'code', 'the description of the response %s' % k)
            o = s.meth(app, 'resolve', '#/paths/~1a/%s/responses/%s' % (m, k))
            s.check(o.ok, 'resolve', lambda: 'resolving the response %s: %r' % (k, o), o.site)
            s.same_ob(s.attr(o.value, 'description'), w, 'resolve', 'the description of the response %s by reference' % k)
        req, rp = s.items(s.must(op))
        st = s.choice('status', 404, 200, 500)
        o = s.meth(rp, 'apply_with', status=st, raw='"text"', header=s.dict(('Content-Type', 'application/json')))
        s.check(o.ok, 'apply', lambda: 'a response with status %d: %r' % (st, o), o.site)
        s.same_ob(s.attr(rp, 'data'), 'text' if st == 404 else None, 'apply', 'the data of a response with status %d' % st)
    run.explore('numeric codes', body)


def across(run):
    """references to responses with numeric names and codes, in YAML documents"""
    def body(s):
        how = s.choice('document', 'text', 'bytes')
        x, y = s.token('x'), s.token('y')
        target = s.choice('reference', '#/responses/404', 'other.yaml#/responses/404', '#/paths/~1b/get/responses/201', 'other.yaml#/paths/~1b/get/responses/201', 'other.yaml#/paths/~1b')
        other = doc({'/b': {'get': {'operationId': 'op2', 'responses': {201: {'description': y}, 200: {'description': 'ok'}}}}}, responses={404: {'description': x}})
        root = doc(dict(other['paths'] if not target.startswith('other') else {}), responses=other['responses'] if not target.startswith('other') else {})
        if target.endswith('~1b'):
            root['paths']['/c'] = {'$ref': target}
        else:
            root['paths']['/a'] = {'get': {'operationId': 'op1', 'responses': {200: {'$ref': target}}}}
        app = s.must(s.attr(s.get('pyswagger.core:App'), 'load'), 'http://h.com/swagger.yaml', resolver=ydoc(s, how, {'http://h.com/swagger.yaml': root, OTHER: other}))
        o = s.meth(app, 'prepare')
        s.check(o.ok, 'prepare', lambda: 'preparing a document with a reference %s to a numeric name: %r' % (target, o), o.site)
        if target.endswith('~1b'):
            r = s.item(s.attr(op_of(s, app, 'op2'), 'responses'), '201')
        else:
            r = s.must('pyswagger.utils:final', s.item(s.attr(op_of(s, app), 'responses'), '200'))
        s.same_ob(s.attr(r, 'description'), x if '404' in target else y, 'reference', 'the description of the response by reference %s' % target)
    run.explore('references to numbers', body)
