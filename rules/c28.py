"""Scans.  Client programs with visitors of every shape (several handlers per class, handlers of base classes, result functions,
several dispatchers and visitors, visitors derived from each other, handlers that add objects) are analysed together with
the library over documents of every kind of object; the calls are compared with those that the tables of the specification
(see c18) and the registrations call for.  The visitors of the library itself must not share tables."""
from .common import *
from .c18 import V1, V2, Version

VISITOR = '''
from pyswagger.scan import Dispatcher, Scanner
from pyswagger.spec.base import BaseObj
import pyswagger.spec.%s.objects as O

class Log(object):
    class Disp(Dispatcher):
        pass

    def __init__(self):
        self.seen = []
        self.res = []

    @Disp.register(kinds)
    def see(self, path, obj, app):
        self.seen.append((path, obj, app))
        return (path, 'r')

    @Disp.result
    def got(self, r):
        self.res.append(r)
'''


def tilde(k):
    return k.replace('~', '~0').replace('/', '~1')


class Expand(object):
    """the objects of a loaded document with their pointers, by the tables of the specification"""

    def __init__(self, s, v):
        self.s, self.v, self.table = s, v, V2 if v == '2.0' else V1

    def key(self, k):
        s = self.s
        k = s.R(k)
        return tilde(k) if isinstance(k, str) else k

    def nested(self, kind):
        n = dict(self.table[kind][1])
        if (self.v, kind) == ('1.2', 'ResourceList'):
            n['apis'] = ('dict', 'Resource')
        if (self.v, kind) == ('1.2', 'Resource'):
            n['apis'] = ('dict', 'Operation')
        return n

    def go(self, o, kind, path, out, leaves=()):
        s = self.s
        out.append((path, o, kind))
        if kind in leaves:
            return out
        for f, (ct, sub) in self.nested(kind).items():
            x = s.R(s.attr(o, f))
            if x is None or isinstance(x, bool):
                continue
            p = s.cat(path, '/' + f)
            if not ct:
                self.go(x, sub, p, out, leaves)
            elif ct == 'list':
                for i, e in enumerate(s.items(x)):
                    self.go(e, sub, s.cat(p, '/%d' % i), out, leaves)
            else:
                for k in s.items(x):
                    q = s.cat(p, '/', self.key(k))
                    e = s.item(x, k)
                    if ct == 'dict':
                        self.go(e, sub, q, out, leaves)
                    else:
                        for i, y in enumerate(s.items(e)):
                            self.go(y, sub, s.cat(q, '/%d' % i), out, leaves)
        return out


def compare(s, got, want, rule, what):
    """each wanted (pointer, object) exactly once"""
    for p, o, k in want:
        at = [g[0] for g in got if s.same(g[1], o)]    # an object that several others share has several places
        s.check(at, rule, lambda: '%s: the %s at %s is not visited' % (what, k, show(p)))
        n = [x for x in at if s.same(x, p)]
        s.check(len(n) == 1, rule, lambda: '%s: the %s at %s is visited %d times with its pointer, it is visited with %s' % (what, k, show(p), len(n), show(at)))
    s.check(len(got) == len(want), rule, lambda: '%s: %d visits of %d objects' % (what, len(got), len(want)))


def scan(s, log, app, root, **kw):
    sc = s.must('pyswagger.scan:Scanner', app)
    s.must(s.attr(sc, 'scan'), route=s.list(*log), root=root, **kw)


def seen(s, log):
    return [tuple(s.items(x)) for x in s.items(s.attr(log, 'seen'))]


FULL = {'title': 'n'}
E_ = {'url': 'u'}


def everything(s, k):
    """a document with every kind of object"""
    items = {'type': 'array', 'items': {'type': 'array', 'items': {'type': 'string'}}}
    sch = {'type': 'object', 'properties': {k: {'type': 'array', 'items': {'type': 'string'}, 'xml': {'name': 'x'}}, 'a/b': {'$ref': '#/definitions/B'}}, 'allOf': [{'$ref': '#/definitions/B'}, {'properties': {'q': {}}}],
           'additionalProperties': {'type': 'string', 'externalDocs': E_}}
    op = {'operationId': 'o', 'responses': {'200': {'description': 'd', 'schema': {'$ref': '#/definitions/A'}, 'headers': {k: dict(items), 'X~Y': {'type': 'string'}}}, 'default': {'$ref': '#/responses/R'}},
          'parameters': [{'name': 'b', 'in': 'body', 'schema': {'type': 'array', 'items': {'type': 'string'}}}, dict(items, name='q', **{'in': 'query'}), {'$ref': '#/parameters/P'}]}
    return doc({'/a/{x}~': {'get': op, 'put': {'operationId': 'p', 'responses': {}}, 'parameters': [{'name': 'x', 'in': 'path', 'type': 'string', 'required': True}]}, '/c': {}},
               info={'title': 't', 'version': '1', 'contact': {'name': 'c'}, 'license': {'name': 'l'}},
               definitions={'A': sch, 'B': {'type': 'object', 'properties': {'b': {'type': 'string'}}}, k: {'type': 'string'}, 'a/b~c': {'type': 'string'}, '': {'type': 'string'}},
               parameters={'P': {'name': 'p', 'in': 'query', 'type': 'string'}}, responses={'R': {'description': 'r', 'schema': {'$ref': '#/definitions/A'}}},
               securityDefinitions={'S': {'type': 'basic'}}, tags=[{'name': 't', 'externalDocs': E_}, {'name': 'u'}], externalDocs=E_)


def check(run):
    kinds2 = sorted(V2)
    kinds1 = sorted(V1)

    def setup(prepared):
        def f(s):
            return app_of(s, everything(s, name(s, 'k')), prepare=prepared)
        return f

    def visits(s, app, prepared):
        root = s.attr(app, s.choice('of', 'root', 'raw') if prepared else 'raw')
        O = 'pyswagger.spec.v2_0.objects:'
        every = s.choice('handlers', 'every kind', 'one kind', 'the base class')
        kinds = kinds2 if every == 'every kind' else [s.choice('kind', *kinds2)] if every == 'one kind' else None
        cl = s.client(VISITOR % 'v2_0', kinds=s.list(*[s.get(O + x) for x in kinds]) if kinds else s.list(s.get(O + 'BaseObj_v2_0'))).value
        log = s.must(s.attr(cl, 'Log'))
        leaves = s.choice('leaves', *([(), ('Operation',), ('Schema', 'Parameter'), ('Swagger',)] if every != 'one kind' else [()]))
        kw = {'leaves': s.list(*[s.get(O + x) for x in leaves])} if leaves else {}
        want = Expand(s, '2.0').go(root, 'Swagger', '#', [], leaves)
        scan(s, [log], app, root, **kw)
        got = seen(s, log)
        what = 'scan of a %s document with leaves %s' % ('prepared' if prepared else 'loaded', leaves)
        want = [w for w in want if kinds is None or w[2] in kinds]
        if kinds == kinds2 and not leaves:
            s.check({w[2] for w in want} == set(kinds2), 'document', 'the document has no object of kind %s' % (set(kinds2) - {w[2] for w in want}))
        compare(s, got, want, 'once', what)
        s.check(all(s.same(g[2], app) for g in got), 'app', 'a handler is not given the application')
        res = s.items(s.attr(log, 'res'))
        s.check(len(res) == len(got) and all(s.same(s.item(r, 0), g[0]) for r, g in zip(res, got)), 'result', lambda: 'the result function got %d of %d results' % (len(res), len(got)))
    for prepared in (False, True):
        run.explore('objects of a %s 2.0 document' % ('prepared' if prepared else 'loaded'), lambda s, app, p=prepared: visits(s, app, p), setup(prepared))

    def circular(s):
        app = app_of(s, doc({'/a': {'get': {'operationId': 'o', 'responses': {'200': {'description': 'd', 'schema': {'$ref': '#/definitions/A'}}}}}, '/b': {'$ref': '#/paths/~1a'}},
                            definitions={'A': {'properties': {'b': {'$ref': '#/definitions/B'}}}, 'B': {'items': {'$ref': '#/definitions/A'}, 'allOf': [{'$ref': '#/definitions/C'}]}, 'C': {'$ref': '#/definitions/B'}}), prepare=False)
        s.call(s.attr(app, 'prepare'), False)
        of = s.choice('of', 'root', 'raw')
        root = s.attr(app, of)
        cl = s.client(VISITOR % 'v2_0', kinds=s.list(s.get('pyswagger.spec.v2_0.objects:BaseObj_v2_0'))).value
        log = s.must(s.attr(cl, 'Log'))
        scan(s, [log], app, root)
        compare(s, seen(s, log), Expand(s, '2.0').go(root, 'Swagger', '#', []), 'once', 'scan of a circular document')
    run.explore('circular documents', circular)

    def parts(s, app, prepared):
        k = name(s, 'k')
        prepared = s.choice('prepared', False, True)
        app = app_of(s, everything(s, k), prepare=prepared)
        r = s.attr(app, 'root' if prepared else 'raw')
        at, kind = s.choice('root', *[('definitions', 'Schema'), ('paths', 'PathItem'), ('responses', 'Response')])
        x = s.item(s.attr(r, at), {'definitions': 'A', 'paths': '/a/{x}~', 'responses': 'R'}[at])
        cl = s.client(VISITOR % 'v2_0', kinds=s.list(*[s.get('pyswagger.spec.v2_0.objects:' + y) for y in kinds2])).value
        log = s.must(s.attr(cl, 'Log'))
        scan(s, [log], app, x)
        compare(s, seen(s, log), Expand(s, '2.0').go(x, kind, '#', []), 'once', 'scan of a %s' % kind)
    for prepared in (False, True):
        run.explore('scans from other roots of a %s document' % ('prepared' if prepared else 'loaded'), lambda s, app, p=prepared: parts(s, app, p), setup(prepared))

    def each(v):
        """each place of each kind"""
        for k in sorted(v.table):
            def body(s, k=k):
                path = s.choice('place', *v.places[k])
                x = s.sym('x')
                plain = v.table[k][0].split()
                fs = v.table[k][1]
                d = {'type': 'string'} if (v.v, k) == ('1.2', 'Items') else {}    # an Items object without fields is not valid
                for f, (ct, sub) in fs.items():
                    lf = v.table[sub][0].split()
                    e = {lf[0]: 'v'} if lf else {}
                    if (v.v, sub) == ('1.2', 'Operation'):
                        continue
                    d[f] = {None: e, 'list': [e, dict(e)], 'dict': {'k/1': e, 'k~0': dict(e)}, 'dict of list': {'k': [e, dict(e)]}}[ct]
                o = v.load(s, path, d)
                s.check(o.ok, 'load', lambda: '%r' % (o,), o.site)
                app = o.value
                root = s.attr(app, 'raw')
                mod = 'v2_0' if v.v == '2.0' else 'v1_2'
                O = 'pyswagger.spec.%s.objects:' % mod
                cl = s.client(VISITOR % mod, kinds=s.list(*[s.get(O + y) for y in sorted(v.table)])).value
                log = s.must(s.attr(cl, 'Log'))
                scan(s, [log], app, root)
                compare(s, seen(s, log), Expand(s, v.v).go(root, 'Swagger' if v.v == '2.0' else 'ResourceList', '#', []), 'once', 'scan of a document with %s at %s' % (k, '.'.join(map(str, path))))
            run.explore('%s %s' % (v.v, k), body)
    for v in ('2.0', '1.2'):
        each(Version(v))

    handlers(run)
    own(run)


PROGRAM = '''
from pyswagger.scan import Dispatcher, Scanner
from pyswagger.spec.v2_0.objects import Swagger, Info, Schema, Operation, PathItem, Response, BaseObj_v2_0, Context_
''' .replace(', Context_', '') + '''
calls = []

class One(object):
    class Disp(Dispatcher):
        pass

    @Disp.register([Schema, Info])
    def f(self, path, obj, app):
        calls.append((self, 'f', obj))
        return 'rf'

    @Disp.register([Schema])
    def g(self, path, obj, app):
        calls.append((self, 'g', obj))
        return None

    @Disp.register([BaseObj_v2_0])
    def h(self, path, obj, app):
        calls.append((self, 'h', obj))
        return 0

    @Disp.result
    def r(self, x):
        calls.append((self, 'r', x))

class Two(object):
    class Disp(Dispatcher):
        pass

    class Other(Dispatcher):
        pass

    @Disp.register([Schema])
    def f(self, path, obj, app):
        calls.append((self, 'f', obj))
        return 'two'

    @Other.register([Schema, Operation])
    def g(self, path, obj, app):
        calls.append((self, 'g', obj))
        return 'other'

    @Other.result
    def r(self, x):
        calls.append((self, 'r', x))

class Three(One):
    class Disp(One.Disp):
        pass

    @Disp.register([Info])
    def k(self, path, obj, app):
        calls.append((self, 'k', obj))
        return 'k'

class Four(object):
    class Disp(Dispatcher):
        obj_route = {}
        result_fn = [None]

    @Disp.register([Info])
    def k(self, path, obj, app):
        calls.append((self, 'k', obj))

class None_(object):
    pass
'''
SPEC = {'One': {'Schema': [('f', 'rf'), ('g', None), ('h', 0)], 'Info': [('f', 'rf'), ('h', 0)], '*': [('h', 0)]},
        'Two': {'Schema': [('f', '-'), ('g', 'other')], 'Operation': [('g', 'other')], '*': []},
        'Three': {'Info': [('k', '-')], '*': []},
        'Four': {'Info': [('k', '-')], '*': []},
        'None_': {'*': []}}


def handlers(run):
    def dispatch(s):
        names = s.choice('visitors', ('One',), ('Two',), ('Three',), ('Four',), ('One', 'Two'), ('Three', 'One'), ('One', 'One'), ('None_', 'Two', 'Four', 'Three', 'One'), ())
        app = app_of(s, doc({'/a': {'get': {'operationId': 'o', 'responses': resp()}}}, definitions={'A': {'type': 'object', 'properties': {'b': {}}}}))
        cl = s.client(PROGRAM)
        s.check(cl.ok, 'register', lambda: 'registering handlers: %r' % (cl,), cl.site)
        cl = cl.value
        vs = [(n, s.must(s.attr(cl, n))) for n in names]
        root = s.attr(app, 'root')
        scan(s, [v for _, v in vs], app, root)
        calls = [tuple(s.items(x)) for x in s.items(s.attr(cl, 'calls'))]
        objs = Expand(s, '2.0').go(root, 'Swagger', '#', [])
        n = 0
        for p, o, k in objs:
            for nm, v in vs:
                want = SPEC[nm].get(k, SPEC[nm]['*'])
                got = [c[1] for c in calls if s.same(c[0], v) and c[1] != 'r' and s.same(c[2], o)]
                s.check(sorted(got) == sorted(x for x, _ in want), 'handlers', lambda: 'visitor %s among %s: the handlers called for the %s at %s are %s, registered are %s' % (nm, names, k, show(p), got, [x for x, _ in want]))
                n += len(want)
        s.check(len([c for c in calls if c[1] != 'r']) == n, 'handlers', 'handlers are called for other objects')
        for nm, v in vs:
            want = [r for p, o, k in objs for _, r in SPEC[nm].get(k, SPEC[nm]['*']) if r != '-']
            got = [s.R(c[2]) for c in calls if s.same(c[0], v) and c[1] == 'r']
            s.check(sorted(map(str, got)) == sorted(map(str, want)), 'result', lambda: 'the result function of visitor %s got %s, the handlers returned %s' % (nm, got, want))
    run.explore('handlers and results', dispatch)

    def leak(s):
        """handlers registered later, by subclasses, do not reach others"""
        cl = s.client(PROGRAM).value
        own = {n: s.attr(s.attr(s.attr(cl, n), 'Disp'), 'obj_route') for n in ('One', 'Two', 'Three', 'Four')}
        own['Dispatcher'] = s.attr(s.get('pyswagger.scan:Dispatcher'), 'obj_route')
        own['Other'] = s.attr(s.attr(s.attr(cl, 'Two'), 'Other'), 'obj_route')
        ids = list(own.items())
        for i, (a, x) in enumerate(ids):
            for b, y in ids[i + 1:]:
                s.check(s.R(x) is not s.R(y), 'leak', lambda: '%s and %s have the same table of handlers' % (a, b))
        s.check(not s.items(own['Dispatcher']), 'leak', 'handlers are registered with Dispatcher itself')
    run.explore('tables of handlers', leak)

    def grow(s):
        """objects that a handler adds below the visited one are visited, others are not visited again"""
        k = name(s, 'k')
        cl = s.client('''
            from pyswagger.scan import Dispatcher
            from pyswagger.spec.v2_0.objects import Swagger, Schema
            from pyswagger.spec.v2_0.parser import SchemaContext

            class Grow(object):
                class Disp(Dispatcher):
                    pass

                def __init__(self):
                    self.seen = []

                @Disp.register([Swagger])
                def add(self, path, obj, app):
                    t = {'x': None}
                    with SchemaContext(t, 'x') as c:
                        c.parse({'type': 'string'})
                    d = dict(obj.definitions or {})
                    d[key] = t['x']
                    obj.update_field('definitions', d)
                    new.append(t['x'])

                @Disp.register([Schema])
                def see(self, path, obj, app):
                    self.seen.append((path, obj, app))
            ''', key=k, new=s.list()).value
        app = app_of(s, doc(definitions={'A': {'type': 'string'}}))
        v = s.must(s.attr(cl, 'Grow'))
        root = s.attr(app, 'root')
        scan(s, [v], app, root)
        want = [w for w in Expand(s, '2.0').go(root, 'Swagger', '#', []) if w[2] == 'Schema']
        s.check(len(want) == 2, 'grow', 'the added schema is not there')
        compare(s, seen(s, v), want, 'grow', 'scan with a handler that adds a definition')
    run.explore('handlers that add objects', grow)

    def errors(s):
        what = s.choice('what', 'no root', 'not an object class', 'error in a handler')
        app = app_of(s, doc())
        sc = s.must('pyswagger.scan:Scanner', app)
        if what == 'no root':
            o = s.meth(sc, 'scan', route=s.list(), root=None)
            s.check(o.is_exc('ValueError'), 'root', lambda: 'a scan of None: %r' % (o,), o.site)
        elif what == 'not an object class':
            c = s.choice('class', 'str', 'object', 'Dispatcher')
            o = s.client('''
                from pyswagger.scan import Dispatcher
                class V(object):
                    class Disp(Dispatcher):
                        pass
                    @Disp.register([%s])
                    def f(self, path, obj, app):
                        pass
                ''' % c)
            s.check(o.is_exc('ValueError'), 'register', lambda: 'registering a handler for %s: %r, specified ValueError' % (c, o), o.site)
        else:
            cl = s.client('''
                from pyswagger.scan import Dispatcher
                from pyswagger.spec.v2_0.objects import Info
                class V(object):
                    class Disp(Dispatcher):
                        pass
                    @Disp.register([Info])
                    def f(self, path, obj, app):
                        raise KeyError('mine')
                ''').value
            o = s.meth(sc, 'scan', route=s.list(s.must(s.attr(cl, 'V'))), root=s.attr(app, 'root'))
            s.check(o.is_exc('KeyError'), 'raise', lambda: 'an error in a handler: %r, specified KeyError' % (o,), o.site)
    run.explore('errors', errors)

    def nexter(s):
        k = s.token('k')
        app = app_of(s, doc(definitions={'A': {'type': 'string'}, 'B': {'type': 'string'}}))
        cl = s.client(VISITOR % 'v2_0' + '''
def nexter(root, leaves):
    given.append((root, leaves))
    yield key, root.definitions['B']
''', kinds=s.list(s.get('pyswagger.spec.v2_0.objects:Schema')), key=k, given=s.list()).value
        log = s.must(s.attr(cl, 'Log'))
        root = s.attr(app, 'root')
        lv = s.list(s.get('pyswagger.spec.v2_0.objects:Schema'))
        scan(s, [log], app, root, nexter=s.attr(cl, 'nexter'), leaves=lv)
        got = seen(s, log)
        s.check(len(got) == 1 and s.same(got[0][0], k) and s.same(got[0][1], s.item(s.attr(root, 'definitions'), 'B')), 'nexter', 'the given traversal is not used')
        gv = s.items(s.attr(cl, 'given'))
        s.check(len(gv) == 1 and s.same(s.item(gv[0], 0), root) and s.same(s.item(gv[0], 1), lv), 'nexter', 'the given traversal gets other arguments')
    run.explore('a given traversal', nexter)


def own(run):
    """the visitors of the library"""
    from absint.values import Cls, Fn

    def body(s):
        import os
        seen = {}
        base = os.path.join(run.root, 'pyswagger')
        mods = []
        for dp, dn, fn in os.walk(base):
            if 'tests' in dp.split(os.sep):
                continue
            for f in sorted(fn):
                if f.endswith('.py') and 'Dispatcher' in open(os.path.join(dp, f), encoding='utf-8').read():
                    mods.append(os.path.relpath(os.path.join(dp, f), run.root)[:-3].replace(os.sep, '.'))
        D = s.get('pyswagger.scan:Dispatcher')
        tables = []
        for m in sorted(mods):
            mod = s.get(m)
            for n, c in list(mod.ns.items()):
                c = s.R(c)
                if not isinstance(c, Cls) or c.module != m:
                    continue
                for dn, d in list(c.ns.items()):
                    d = s.R(d)
                    if isinstance(d, Cls) and D in d.mro:
                        t = s.R(s.attr(d, 'obj_route'))
                        for o, u in tables:
                            s.check(u is not t, 'leak', lambda: 'visitors %s and %s.%s share a table of handlers' % (o, m, n))
                        tables.append((m + '.' + n, t))
                        s.check(s.items(t), 'empty', lambda: 'visitor %s.%s has a dispatcher without handlers' % (m, n))
                        for k in s.items(t):
                            for f in s.items(s.item(t, k)):
                                f = s.R(f)
                                s.check(isinstance(f, Fn) and any(s.R(x) is f for x in c.ns.values()), 'leak', lambda: 'the handler %s registered with visitor %s.%s is none of its methods' % (show(f), m, n))
        s.check(len(tables) >= 8, 'visitors', 'only %d visitors found' % len(tables))
    run.explore('visitors of the library', body)
