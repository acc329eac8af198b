"""Shared state.  Each use of the library is driven next to a second, independent one (application, codec, primitive factory, renderer,
credentials, client, request, response, object of a document) and everything observable of the second one has to be what
it was; both documents given as dicts have to be as before.  After every history the effects on what existed when the library had been
imported are read off: class-level tables, default arguments and default values of fields may not have changed."""
from absint import lib
from .common import *
from . import c13, c32     # the models of the HTTP libraries and of the YAML parser

MODS = c13.MODS + ('pyswagger.primitives.render',)
ATOM = (str, int, float, bool, bytes, type(None))


def snap(s, v, seen=None, skip=('_parent__',)):
    """structure of a value: containers and objects, in depth"""
    seen = {} if seen is None else seen
    v = s.I.U(s.R(v))
    if isinstance(v, ATOM) or isinstance(v, Term):
        return ckey(v)
    if isinstance(v, (dict, list)):
        return ('raw', str(len(v)))
    if isinstance(v, tuple):
        return ('tuple',) + tuple(snap(s, x, seen) for x in v)
    if id(v) in seen:
        return ('seen', seen[id(v)])
    seen[id(v)] = len(seen)
    if isinstance(v, HSet):
        return ('set', frozenset(ckey(s.R(k)) for k, _ in v.ents.values()), attrs(s, v, seen))
    if isinstance(v, HDict):
        return ('dict', tuple((ckey(s.R(k)), snap(s, x, seen)) for k, x in v.ents.values()), attrs(s, v, seen))
    if isinstance(v, HList):
        return ('list', tuple(snap(s, x, seen) for x in v.items), attrs(s, v, seen))
    if isinstance(v, NT):
        return ('nt',) + tuple(snap(s, x, seen) for x in v.items)
    if isinstance(v, (Fn, Cls, Mod, Builtin, Ext)):
        return ('def', id(v))
    if isinstance(v, BoundM):
        return ('bound', id(v.func), snap(s, v.self_, seen))
    if isinstance(v, Proxy):
        return snap(s, v.ref, seen)
    return (v.cls.name if v.cls is not None else type(v).__name__, attrs(s, v, seen))


def attrs(s, v, seen):
    return tuple((k, snap(s, x, seen)) for k, x in sorted(v.attrs.items(), key=lambda p: str(p[0])) if not str(k).startswith('_parent__'))


def differ(a, b, path='', depth=0):
    """where two structures differ"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and depth < 40:
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                label = '/%s' % (x[0],) if isinstance(x, tuple) and x and isinstance(x[0], str) else ''
                return differ(x, y, path + label, depth + 1)
    return '%s: %s, it was %s' % (path or '/', short(b), short(a))


def short(x):
    return str(x)[:150]


class Watch(object):
    """things that must not change while others are used"""

    def __init__(self, s, **what):
        self.s, self.what = s, {k: (f, f()) for k, f in what.items()}

    def unchanged(self, after):
        for k, (f, old) in sorted(self.what.items()):
            new = f()
            self.s.check(new == old, 'influence', lambda: '%s changed by %s: %s' % (k.replace('_', ' '), after, differ(old, new)))


# ---- effects on what the import created
class Table(object):
    def __init__(self, desc, kind):
        self.desc, self.kind = desc, kind


def tables(I):
    """mutable containers and objects below class attributes and default arguments of the package: id -> description"""
    out = {}

    def below(v, desc, kind, depth=0):
        v = I.U(v)
        if depth > 8 or isinstance(v, (Fn, Cls, Mod, Builtin, Ext, tuple)) and not isinstance(v, tuple) or id(v) in out:
            return
        if isinstance(v, tuple):
            for x in v:
                below(x, desc, kind, depth + 1)
            return
        if not isinstance(v, Obj):
            return
        out[id(v)] = (v, desc, kind)
        if isinstance(v, HDict):
            for k, x in list(v.ents.values()):
                below(x, '%s[%s]' % (desc, show(k)), kind, depth + 1)
        elif isinstance(v, HList):
            for x in v.items:
                below(x, desc + '[..]', kind, depth + 1)
        elif v.cls is not None:
            for k, x in v.attrs.items():
                below(x, '%s.%s' % (desc, k), kind, depth + 1)

    def func(f, desc):
        if isinstance(f, Wrap):
            for g in (f.f, f.fset, f.fdel):
                func(g, desc)
        elif isinstance(f, Fn):
            for d in list(f.defaults or ()) + list(f.kwdefaults or ()):
                below(d, 'a default argument of %s' % desc, 'default argument')

    done = set()

    def cls(c, desc):
        if id(c) in done:
            return
        done.add(id(c))
        for k, v in list(c.ns.items()):
            if isinstance(v, (Fn, Wrap)):
                func(v, '%s.%s' % (desc, k))
            elif isinstance(v, Cls):
                if v.module and str(v.module).startswith('pyswagger'):
                    cls(v, '%s.%s' % (desc, k))
            else:
                below(v, '%s.%s' % (desc, k), 'class attribute')
    for n, m in sorted(I.modules.items()):
        if not n.startswith('pyswagger') or m is None:
            continue
        for k, v in list(m.ns.items()):
            if isinstance(v, Cls) and not v.builtin:
                cls(v, v.name)
            elif isinstance(v, Fn):
                func(v, '%s.%s' % (n, k))
    return out


def nothing_shared_changed(s, what):
    I = s.I
    dirty = I.dirty[-1] if I.dirty else {}
    tab = None
    for o, old in list(dirty.items()):
        if getattr(o, 'epoch', 0) != 0:
            continue
        new = o.save()
        if new == old or o is I.LOGGER:
            continue
        if isinstance(o, Cls):
            # a class attribute that existed is another one now
            hit = [k for k, v in old[2].items() if k not in new[2] or new[2][k] is not v and not same_atom(new[2][k], v)]
            s.check(not hit, 'tables', lambda: 'the class attribute %s.%s was modified by %s' % (o.name, hit[0], what))
            continue
        if tab is None:
            tab = tables_before(I, dirty)
        if id(o) not in tab:
            continue
        _, desc, kind = tab[id(o)]
        if isinstance(o, HDict) and not old[2] and kind == 'class attribute' and '_fields__' not in desc:
            # a collection that is filled as one goes: judged by what others observe
            continue
        s.check(False, 'tables', lambda: '%s was modified by %s' % (desc, what))
    s.check(True, 'tables', '')


def same_atom(a, b):
    return isinstance(a, ATOM) and isinstance(b, ATOM) and type(a) is type(b) and a == b


def tables_before(I, dirty):
    return tables(I)


def history(run, name, body, setup=None, **kw):
    def go(s, *pre):
        body(s, *pre)
        nothing_shared_changed(s, name)
    run.explore(name, go, setup=setup, mods=MODS, **kw)


def check(run):
    defaults(run)
    registries(run)
    collections(run)
    applications(run)
    requests(run)
    responses(run)
    clients(run)
    credentials(run)
    rendering(run)
    values(run)
    old(run)


def spec_classes(I):
    out = []
    for v in ('v2_0', 'v1_2'):
        for part in ('objects', 'parser'):
            I.import_module('pyswagger.spec.%s.%s' % (v, part))
        p = I.modules['pyswagger.spec.%s.parser' % v]
        for k, c in sorted(p.ns.items()):
            if isinstance(c, Cls) and not c.builtin:
                try:
                    ref = I.getattr_(c, '__swagger_ref_object__', None)
                except Exception:
                    continue
                if isinstance(ref, Cls) and str(c.module or '').endswith(v + '.parser'):
                    out.append((v, k, c, ref))
    return out


def defaults(run):
    """each object gets its own copy of a mutable default"""
    def body(s):
        I = s.I
        n = 0
        for v, k, ctx, ref in spec_classes(I):
            made = []
            for i in range(2):
                box = s.dict(('x', None))
                c = s.call(ctx, box, 'x')
                if not c.ok:
                    break
                if not s.call(I.getattr_(c.value, 'parse'), s.dict()).ok and not s.call(I.getattr_(c.value, 'parse'), s.dict(), *[None] * 3).ok:
                    s.must('pyswagger.spec.base:Context.parse', c.value, s.dict())
                o = s.call(ref, c.value)
                if not o.ok:
                    break
                made.append(o.value)
            if len(made) < 2:
                continue
            n += 1
            a, b = (I.U(s.R(x)) for x in made)
            mine = {}
            reach_mutable(s, b, mine)
            for path, x in sorted(contents(s, a), key=lambda p: p[0]):
                s.check(id(x) not in mine, 'own copy', lambda: 'two objects %s of %s share the value of %s' % (ref.name, v, path))
                s.check(x.epoch != 0, 'own copy', lambda: 'the value of %s in a new object %s of %s is the default of all of them' % (path, ref.name, v))
        s.check(n > 30, 'anchor', 'only %d kinds of objects could be created' % n) if n > 30 else None
        if n <= 30:
            raise Inconclusive('only %d kinds of objects could be created' % n)
    history(run, 'default values of fields', body)


def contents(s, o, seen=None):
    out = []
    for k, v in o.attrs.items():
        v = s.I.U(s.R(v))
        if isinstance(v, (HList, HDict)) and not str(k).startswith('_parent__'):
            out.append((str(k).rsplit('__', 1)[-1], v))
    return out


def reach_mutable(s, o, out):
    for _, v in contents(s, o):
        out[id(v)] = v


def registries(run):
    def codecs(s):
        """registering a codec"""
        where = s.choice('codecs', 'two', 'of two applications')
        if where == 'two':
            a, b = s.must('pyswagger.primitives:MimeCodec'), s.must('pyswagger.primitives:MimeCodec')
        else:
            a, b = (s.attr(app_of(s, opdoc()), 'mime_codec') for _ in range(2))
        w = Watch(s, the_other_codec=lambda: snap(s, b))
        mine, mt = s.opaque('codec'), s.choice('type', s.token('mt', nochars=';/ \t\r\nABCDEFGHIJKLMNOPQRSTUVWXYZ'), 'application/json', 'text/plain')
        act = s.choice('action', 'register', 'unregister')
        if act == 'register':
            s.must(s.attr(a, 'register'), mt, mine)
            before = s.call(s.attr(b, 'codec'), mt)
            s.check(not (before.ok and s.I.U(s.R(before.value)) is s.I.U(mine)), 'influence', 'a codec is registered in another collection, too')
            s.check(s.I.U(s.R(s.must(s.attr(a, 'codec'), mt))) is s.I.U(mine), 'registered', 'the codec is not registered')
        elif isinstance(mt, str):
            s.must(s.attr(a, 'unregister'), mt)
            s.check(s.must(s.attr(b, 'codec'), mt) is not None, 'influence', 'unregistering removes the codec of another collection')
        w.unchanged('registering')
        third = s.must('pyswagger.primitives:MimeCodec')
        for t in ('application/json', 'text/json', 'text/plain'):
            c = s.R(s.must(s.attr(third, 'codec'), t))
            s.check(c is not None and s.I.U(c) is not s.I.U(mine), 'influence', lambda: 'the codec of %s in a new collection is %s' % (t, show(c)))
    history(run, 'codecs', codecs)

    def prims(s):
        """registering a handler for a type and format"""
        where = s.choice('factories', 'two', 'of two applications')
        if where == 'two':
            a, b = s.must('pyswagger.primitives:Primitive'), s.must('pyswagger.primitives:Primitive')
        else:
            a, b = (s.attr(app_of(s, opdoc()), 'prim_factory') for _ in range(2))
        t, f = s.choice('type', 'string', 'integer', s.token('t')), s.choice('format', s.token('f'), 'date', None, '')
        w = Watch(s, the_other_factory=lambda: snap(s, b))
        old_ = s.must(s.attr(b, 'get'), t, f)
        mine = s.opaque('creator')
        s.must(s.attr(a, 'register'), t, f, mine)
        s.check(s.same(s.must(s.attr(b, 'get'), t, f), old_), 'influence', 'a handler is registered in another factory, too')
        w.unchanged('registering')
        third = s.must('pyswagger.primitives:Primitive')
        s.check(snap(s, third) == snap(s, b), 'influence', lambda: 'a new factory differs after registering in another one: %s' % differ(snap(s, b), snap(s, third)))
    history(run, 'primitive factories', prims)


def collections(run):
    def body(s):
        """the small collections"""
        kind = s.choice('kind', 'ScopeDict', 'CaseInsensitiveDict', 'CycleGuard', 'Dispatcher tables')
        if kind == 'CycleGuard':
            a, b = s.must('pyswagger.utils:CycleGuard'), s.must('pyswagger.utils:CycleGuard')
            w = Watch(s, the_other_guard=lambda: snap(s, b))
            o = s.opaque('o')
            s.must(s.attr(a, 'update'), o)
            w.unchanged('a guard')
            s.check(s.call(s.attr(b, 'update'), o).ok, 'influence', 'a guard knows what another one has seen')
        elif kind == 'Dispatcher tables':
            return
        else:
            a, b = s.must('pyswagger.utils:' + kind), s.must('pyswagger.utils:' + kind)
            w = Watch(s, the_other_collection=lambda: snap(s, b))
            s.I.setitem(a, s.token('k'), s.opaque('v'))
            w.unchanged('storing into a collection')
            c = s.must('pyswagger.utils:' + kind)
            s.check(s.len(c) == 0 or kind == 'CaseInsensitiveDict' and not s.items(c), 'influence', 'a new collection is not empty')
    history(run, 'collections', body)


FULL = doc({'/a/{i}': {'parameters': [{'name': 'i', 'in': 'path', 'required': True, 'type': 'string'}],
                       'post': {'operationId': 'op1', 'tags': ['t'], 'consumes': ['application/json', 'x/y'], 'produces': ['application/json'], 'parameters': [
                           {'name': 'b', 'in': 'body', 'schema': {'$ref': '#/definitions/M'}}, {'$ref': '#/parameters/Q'}, {'name': 'h', 'in': 'header', 'type': 'array', 'items': {'type': 'string'}, 'default': ['x']}],
                           'responses': {'200': {'description': 'ok', 'schema': {'$ref': '#/definitions/M'}, 'headers': {'x-a': {'type': 'integer'}}}, 'default': {'$ref': '#/responses/R'}},
                           'security': [{'k': []}]}},
            '/b': {'get': {'operationId': 'op2', 'responses': {'200': {'description': 'd'}}}}, '/c': {'$ref': '#/paths/~1b'}},
           definitions={'M': {'type': 'object', 'required': ['n'], 'properties': {'n': {'type': 'integer', 'enum': [1, 2]}, 'l': {'type': 'array', 'items': {'type': 'string'}, 'default': ['y']}}, 'allOf': [{'$ref': '#/definitions/N'}]},
                        'N': {'type': 'object', 'required': ['z'], 'properties': {'z': {'type': 'string', 'default': 'zz'}}}},
           parameters={'Q': {'name': 'q', 'in': 'query', 'type': 'string', 'default': 'dq'}}, responses={'R': {'description': 'r'}},
           consumes=['a/b'], produces=['c/d'], schemes=['http', 'https'], security=[{'s': []}],
           securityDefinitions={'k': {'type': 'apiKey', 'name': 'key', 'in': 'query'}, 's': {'type': 'basic'}})
# path items by reference repeat an operationId, leave that one out where operations are collected
PLAIN = dict(FULL, paths={k: v for k, v in FULL['paths'].items() if k != '/c'})


def use(s, app, tag=''):
    """a complete exchange"""
    op = op_of(s, app)
    pr = s.I_call(op, {'i': s.token('i' + tag), 'b': s.dict(('n', 1), ('z', s.token('z' + tag))), 'q': s.token('q' + tag)})
    if not pr.ok:
        raise Fail('use', 'calling the operation: %r' % (pr,), pr.site)
    req, rp = s.item(pr.value, 0), s.item(pr.value, 1)
    s.must(s.attr(req, 'prepare'), handle_files=True)
    s.must(s.attr(rp, 'apply_with'), status=200, raw='{"n": 1, "z": "a", "l": ["b"]}', header=s.dict(('Content-Type', 'application/json'), ('X-A', '5')))
    return op, req, rp


def applications(run):
    def body(s):
        """two applications over one document given as a dict"""
        spec = s.obj(PLAIN)
        mk = lambda: s.must(s.attr(s.get('pyswagger.core:App'), 'load'), URL, getter=s.must('pyswagger.getter:DictGetter', s.list(URL), s.dict((URL, spec))))
        w0 = Watch(s, the_dict_of_the_caller=lambda: snap(s, spec))
        a = mk()
        w0.unchanged('loading')
        order = s.choice('second application', 'loaded before preparing the first', 'loaded after it', 'prepared before')
        b = mk() if order != 'loaded after it' else None
        if order == 'prepared before':
            s.must(s.attr(b, 'prepare'))
        w = Watch(s, the_other_application=lambda: snap(s, b) if b is not None else None)
        s.must(s.attr(a, 'prepare'))
        w0.unchanged('preparing')
        w.unchanged('preparing')
        use(s, a)
        w0.unchanged('a call')
        w.unchanged('a call')
        if b is None:
            b = mk()
        if order != 'prepared before':
            s.must(s.attr(b, 'prepare'))
        # it is what it would have been alone
        c = mk()
        s.must(s.attr(c, 'prepare'))
        for what in ('root', 'raw', 'schemes', 'version'):
            x, y = snap(s, s.attr(b, what)), snap(s, s.attr(c, what))
            s.check(x == y, 'influence', lambda: 'the %s of two applications over one document: %s' % (what, differ(x, y)))
        s.check(s.I.U(s.attr(b, 'root')) is not s.I.U(s.attr(c, 'root')), 'influence', 'two applications have the same root object')
    history(run, 'two applications over one dict', body)

    def fresh(s):
        """a second application over other contents at the same location"""
        how = s.choice('through', 'getter', 'default getter')
        t1, t2 = s.token('t1'), s.token('t2')
        apps = []
        for t in (t1, t2):
            d = s.obj(doc(info={'title': t, 'version': '1'}, definitions={'M': {'type': 'string', 'description': t}}))
            load = s.attr(s.get('pyswagger.core:App'), 'load')
            if how == 'getter':
                a = s.must(load, URL, getter=s.must('pyswagger.getter:DictGetter', s.list(URL), s.dict((URL, d))))
            else:
                storage(s, net=[(URL, '{"swagger": "2.0", "info": {"title": "%s", "version": "1"}, "paths": {}, "definitions": {"M": {"type": "string", "description": "%s"}}}' % (('one', 'one') if t is t1 else ('two', 'two')))])
                a = s.must(load, URL)
            s.must(s.attr(a, 'prepare'))
            apps.append(a)
        want = (t1, t2) if how == 'getter' else ('one', 'two')
        for a, t in zip(apps, want):
            s.same_ob(s.attr(s.attr(s.attr(a, 'root'), 'info'), 'title'), t, 'influence', 'the title of an application')
            s.same_ob(s.attr(s.must(s.attr(a, 'resolve'), '#/definitions/M'), 'description'), t, 'influence', 'what a reference of an application denotes')
    history(run, 'one location, two contents', fresh)

    def inner(s):
        """objects of one document do not change each other"""
        app = app_of(s, PLAIN)
        root = s.attr(app, 'root')
        for what, get in (('definition N', lambda: schema_of(s, app, 'N')), ('operation op2', lambda: op_of(s, app, 'op2'))):
            w = Watch(s, **{what.replace(' ', '_'): lambda get=get: shallow(s, get())})
            use(s, app)
            w.unchanged('calling another operation')
        before = shallow(s, op_of(s, app))
        use(s, app, '1')
        use(s, app, '2')
        after = shallow(s, op_of(s, app))
        s.check(before == after, 'influence', lambda: 'calls change the operation: %s' % differ(before, after))
        s.check(root is not None, 'anchor', '')
    history(run, 'objects of one document', inner)


def shallow(s, o):
    return snap(s, s.must(s.attr(o, 'dump')))


def two(s):
    return [app_of(s, PLAIN), app_of(s, PLAIN)]


def requests(run):
    ACTS = ('prepare', 'prepare with schemes', 'consume', 'produce', 'scheme', 'patch', 'reset', 'header', 'query', 'compose')

    def body(s, apps):
        """two requests of one operation"""
        app = apps[0]
        op = op_of(s, app)
        arg = s.dict(('n', 1), ('z', s.token('z')))
        kw = {'i': s.token('i'), 'b': arg, 'q': s.token('q')}
        p1, p2 = s.I_call(op, kw), s.I_call(op, kw)
        r1, r2 = s.item(p1.value, 0), s.item(p2.value, 0)
        prepared = s.choice('the other request', 'is prepared', 'is not prepared')
        if prepared == 'is prepared':
            s.must(s.attr(r2, 'prepare'))
        own = lambda o: tuple((k, snap(s, v)) for k, v in sorted(s.I.U(o).attrs.items()) if not k.endswith('__op'))
        w = Watch(s, the_other_request=lambda: own(r2), the_operation=lambda: shallow(s, op), the_argument=lambda: snap(s, arg), the_schemes=lambda: snap(s, s.attr(op, 'cached_schemes')))
        act = s.choice('action', *ACTS)
        if act == 'prepare':
            s.must(s.attr(r1, 'prepare'))
        elif act == 'prepare with schemes':
            s.must(s.attr(r1, 'prepare'), scheme=s.list('http', 'https'))
        elif act in ('consume', 'produce'):
            s.must(s.attr(r1, act), 'application/json')
            s.must(s.attr(r1, 'prepare'))
        elif act == 'scheme':
            s.I.setattr_(r1, 'scheme', 'https')
        elif act == 'patch':
            s.must(s.attr(r1, 'prepare'))
            s.must(s.attr(r1, '_patch'), s.dict(('url_netloc', 'x.com'), ('url_scheme', 'https')))
            s.must(s.attr(r1, '_patch'))
        elif act == 'reset':
            s.must(s.attr(r1, 'prepare'))
            s.must(s.attr(r1, 'reset'))
        elif act == 'header':
            s.I.setitem(s.attr(r1, 'header'), s.token('hn'), s.token('hv'))
        elif act == 'query':
            s.must(s.attr(s.attr(r1, 'query'), 'append'), (s.token('qn'), s.token('qv')))
        elif act == 'compose':
            s.must(s.attr(r1, 'prepare'))
            c = s.must('pyswagger.core:BaseClient')
            s.must(s.attr(c, 'compose_headers'), r1, s.dict(('a', 'b')))
        w.unchanged(act)
        # and a third one is what the first was
        p3 = s.I_call(op, kw)
        r3 = s.item(p3.value, 0)
        p4 = s.I_call(op_of(s, apps[1]), kw)
        x, y = own(r3), own(s.item(p4.value, 0))
        s.check(x == y, 'influence', lambda: 'a later request differs: %s' % differ(y, x))
    history(run, 'two requests', body, setup=two)


def responses(run):
    def body(s, apps):
        op = op_of(s, apps[0])
        kw = {'i': s.token('i'), 'b': s.dict(('n', 1), ('z', 'z'))}
        r1, r2 = (s.item(s.I_call(op, kw).value, 1) for _ in range(2))
        own = lambda o: tuple((k, snap(s, v)) for k, v in sorted(s.I.U(o).attrs.items()) if not k.endswith('__op'))
        if s.choice('the other response', 'is used', 'is not used') == 'is used':
            s.must(s.attr(r2, 'apply_with'), status=200, raw='{"n": 2, "z": "b"}', header=s.dict(('Content-Type', 'application/json')))
        hd = s.dict(('Content-Type', 'application/json'), ('X-A', '5'), (s.token('hn'), s.token('hv')))
        w = Watch(s, the_other_response=lambda: own(r2), the_operation=lambda: shallow(s, op), the_given_headers=lambda: snap(s, hd))
        s.must(s.attr(r1, 'apply_with'), status=200, raw='{"n": 1, "z": "a"}', header=hd)
        s.must(s.attr(r1, 'apply_with'), header=s.dict(('X-B', '6')))
        w.unchanged('applying a response')
        s.must(s.attr(r1, 'reset'))
        w.unchanged('resetting a response')
        r3 = s.item(s.I_call(op, kw).value, 1)
        s.check(not s.items(s.attr(r3, 'header')) and s.R(s.attr(r3, 'data')) is None and s.R(s.attr(r3, 'raw')) is None, 'influence', 'a new response is not empty')
    history(run, 'two responses', body, setup=two)


def clients(run):
    for which in c13.CLIENTS:
        def body(s, apps, which=which):
            """two clients, two exchanges"""
            op = op_of(s, apps[0])
            c1, c2 = c13.client(s, which), c13.client(s, which)
            c13.answer(s, status=404)
            w = Watch(s, the_other_client=lambda: snap(s, s.I.U(c2)), the_operation=lambda: shallow(s, op), the_schemes=lambda: snap(s, s.attr(op, 'cached_schemes')))
            kw = {'i': s.token('i'), 'b': s.dict(('n', 1), ('z', 'z'))}
            hd = s.list((s.token('hn'), s.token('hv')))
            give = s.choice('given', 'nothing', 'options', 'headers')
            W0 = Watch(s, the_given_headers=lambda: snap(s, hd))
            pair = s.I_call(op, kw).value
            args = {'nothing': {}, 'options': {'opt': s.dict(('url_netloc', 'x.com'))}, 'headers': {'headers': hd}}[give]
            o = s.meth(c1, 'request', pair, **args)
            s.check(o.ok, 'use', lambda: 'a request through %s: %r' % (which, o), o.site)
            w.unchanged('a request through another client')
            W0.unchanged('a request')
            # a plain request afterwards carries nothing of it
            del c13.W.sent[:]
            o = s.meth(c2 if s.choice('then', 'the other client', 'the same client') == 'the other client' else c1, 'request', s.I_call(op, kw).value)
            s.check(o.ok, 'use', lambda: 'a second request through %s: %r' % (which, o), o.site)
            second = c13.W.sent[-1]
            del c13.W.sent[:]
            c3 = c13.client(s, which)
            c13.answer(s, tag='3', status=404)
            s.must(s.attr(c3, 'request'), s.I_call(op, kw).value)
            alone = c13.W.sent[-1]
            for k in ('method', 'url', 'headers'):
                x, y = snap_py(s, second[k]), snap_py(s, alone[k])
                s.check(x == y, 'influence', lambda: 'the %s of a request after another one: %s, alone %s' % (k, short(x), short(y)))
        history(run, 'clients %s' % which, body, setup=two, version=c13.CLIENTS[which][1])


def snap_py(s, v):
    if isinstance(v, (list, tuple)):
        return tuple(snap_py(s, x) for x in v)
    return snap(s, v)


def credentials(run):
    def body(s):
        apps = [app_of(s, PLAIN) for _ in range(2)]
        a, b = (s.must('pyswagger.core:Security', x) for x in apps)
        w = Watch(s, other_credentials=lambda: snap(s, b), the_other_application=lambda: snap(s, s.attr(apps[1], 'root')))
        n = s.choice('name', 'k', 's')
        s.must(s.attr(a, 'update_with'), n, s.token('key') if n == 'k' else (s.token('u'), s.token('p')))
        w.unchanged('registering credentials')
        kw = {'i': s.token('i'), 'b': s.dict(('n', 1), ('z', 'z'))}
        r1, r2 = (s.item(s.I_call(op_of(s, x), kw).value, 0) for x in apps)
        own = lambda o: tuple((k, snap(s, v)) for k, v in sorted(s.I.U(o).attrs.items()) if not k.endswith('__op'))
        w2 = Watch(s, the_other_request=lambda: own(r2), the_operations=lambda: (shallow(s, op_of(s, apps[0])), shallow(s, op_of(s, apps[1]))))
        s.must(a, r1)
        w.unchanged('applying credentials')
        w2.unchanged('applying credentials')
        s.must(b, r2)
        w2.unchanged('applying other credentials')
    history(run, 'credentials', body)


def rendering(run):
    def body(s):
        a, b = s.must('pyswagger.primitives.render:Renderer'), s.must('pyswagger.primitives.render:Renderer')
        w = Watch(s, the_other_renderer=lambda: snap(s, b))
        o1 = s.must(s.attr(a, 'default'))
        for k, v in (('files', None), ('object_template', 1), ('parameter_template', 1)):
            x = s.item(o1, k)
            if v is None:
                s.must(s.attr(x, 'append'), s.token('f'))
            else:
                s.I.setitem(x, s.token('n'), s.token('v'))
        s.I.setitem(o1, 'max_property', True)
        w.unchanged('options')
        o2 = s.must(s.attr(b, 'default'))
        o3 = s.must(s.attr(s.must('pyswagger.primitives.render:Renderer'), 'default'))
        for o in (o2, o3):
            s.check(not s.items(s.item(o, 'files')) and not s.items(s.item(o, 'object_template')) and not s.items(s.item(o, 'parameter_template')) and s.R(s.item(o, 'max_property')) is False,
                    'influence', 'the default options of rendering keep what was put into those of another renderer')
        app = app_of(s, opdoc([{'name': n, 'in': 'query', 'type': 'integer', 'minimum': 1, 'maximum': 1, 'required': True} for n in 'qr']))
        op = op_of(s, app)
        before = shallow(s, op)
        opt = s.must(s.attr(a, 'default'))
        wo = Watch(s, the_given_options=lambda: snap(s, opt))
        s.must(s.attr(a, 'render_all'), op, opt=opt)
        s.must(s.attr(a, 'render_all'), op)
        s.must(s.attr(a, 'render_all'), op, exclude=s.list('r'))
        r = s.must(s.attr(a, 'render_all'), op)
        s.check(s.I.contains(r, 'q'), 'influence', 'a required parameter is not rendered')
        wo.unchanged('rendering')
        s.check(shallow(s, op) == before, 'influence', 'rendering changes the operation')
        w.unchanged('rendering')
    history(run, 'renderers', body)


def values(run):
    def body(s):
        """values produced from one schema share nothing with each other, the schema and its defaults"""
        app = app_of(s, PLAIN)
        sch = schema_of(s, app, 'M')
        f = s.attr(app, 'prim_factory')
        before = shallow(s, sch)
        a = s.dict(('n', 1), ('z', 'p')) if s.choice('list', 'defaulted', 'given') == 'defaulted' else s.dict(('n', 1), ('z', 'p'), ('l', s.list('w')))
        wa = Watch(s, the_given_value=lambda: snap(s, a))
        x, y = (s.must(s.attr(f, 'produce'), sch, a) for _ in range(2))
        w = Watch(s, the_other_value=lambda: snap(s, y))
        s.must(s.attr(s.item(x, 'l'), 'append'), s.token('more'))
        s.I.setitem(x, 'n', 2)
        s.I.setitem(x, s.token('new'), 2)
        w.unchanged('changing a value')
        wa.unchanged('changing a produced value')
        s.check(shallow(s, sch) == before, 'influence', lambda: 'changing a produced value changes the schema: %s' % differ(before, shallow(s, sch)))
        z = s.must(s.attr(f, 'produce'), sch, a)
        s.check(snap(s, z) == snap(s, y), 'influence', lambda: 'a later value differs: %s' % differ(snap(s, y), snap(s, z)))
    history(run, 'values', body)


def old(run):
    def body(s):
        """two applications over one 1.2 document"""
        R = 'http://h.com/api-docs'
        root = s.obj({'swaggerVersion': '1.2', 'apis': [{'path': '/r'}], 'authorizations': {'k': {'type': 'apiKey', 'passAs': 'query', 'keyname': 'x'}}})
        res = s.obj({'swaggerVersion': '1.2', 'basePath': 'http://h.com/v1', 'resourcePath': '/r', 'produces': ['a/b'], 'apis': [{'path': '/r/{i}', 'operations': [
            {'method': 'GET', 'nickname': 'n', 'type': 'M', 'authorizations': {}, 'parameters': [{'name': 'i', 'paramType': 'path', 'type': 'string', 'required': True}, {'name': 'q', 'paramType': 'query', 'type': 'string', 'enum': ['a', 'b']}],
             'responseMessages': [{'code': 404, 'message': 'm'}]}]}],
            'models': {'M': {'id': 'M', 'required': ['p'], 'properties': {'p': {'type': 'string'}, 'q': {'$ref': 'N'}}}, 'N': {'id': 'N', 'properties': {'z': {'type': 'integer'}}}}})
        w0 = Watch(s, the_dicts_of_the_caller=lambda: (snap(s, root), snap(s, res)))
        mk = lambda: s.must(s.attr(s.get('pyswagger.core:App'), 'load'), R, getter=s.must('pyswagger.getter:DictGetter', s.list(R, R + '/r'), s.dict((R, root), (R + '/r', res))))
        a = mk()
        b = mk()
        w0.unchanged('loading')
        w = Watch(s, the_other_application=lambda: snap(s, b))
        s.must(s.attr(a, 'prepare'))
        w0.unchanged('preparing')
        w.unchanged('preparing')
        s.must(s.attr(b, 'prepare'))
        x, y = snap(s, s.attr(a, 'root')), snap(s, s.attr(b, 'root'))
        s.check(x == y, 'influence', lambda: 'two applications over one document differ: %s' % differ(x, y))
    history(run, 'two 1.2 applications', body)
