"""Inheritance.  Documents in which every inheritable field is absent, empty or given (generic values) on the document, on two
operations of one path item and on an operation of another one; parameters of path items redefined, added, given by reference;
every method and several shapes of path and base path; identifiers and tags.  What each operation offers after preparation."""
from .common import *

METHODS = 'get put post delete options head patch'.split()
OTHER = 'http://h.com/other.json'


def texts(s, v):
    return [s.item(v, i) for i in range(s.len(v))]


def expect(s, v, want, rule, what):
    v = s.R(v)
    if want is None:
        s.check(v is None, rule, lambda: '%s is %s, specified none' % (what, show(v)))
        return
    s.check(isinstance(s.I.U(v), HList), rule, lambda: '%s is %s, specified %s' % (what, show(v), want))
    got = texts(s, v)
    s.check(len(got) == len(want) and all(s.same(a, b) for a, b in zip(got, want)), rule, lambda: '%s is %s, specified %s' % (what, [show(x) for x in got], [show(x) for x in want]))


def check(run):
    fields(run)
    schemes(run)
    security(run)
    parameters(run)
    places(run)
    reach(run)
    shared(run)


def fields(run):
    for f in ('consumes', 'produces'):
        def body(s, f=f):
            m = [s.token('m%d' % i) for i in range(4)]
            opts = ('absent', 'one', 'two', 'empty')
            own = {'absent': None, 'one': [m[0]], 'two': [m[1], m[0]], 'empty': []}
            glob = {'absent': None, 'one': [m[2]], 'two': [m[3], m[2]], 'empty': []}
            g = s.choice('document', *opts)
            few = opts if run.tier != 'quick' else ('absent', 'one')
            a, b = s.choice('operation', *opts), s.choice('sibling', *few)
            c = s.choice('elsewhere', 'absent', 'one') if run.tier != 'quick' else 'absent'
            mk = lambda oid, k: dict({'operationId': oid, 'responses': resp()}, **({f: own[k]} if own[k] is not None else {}))
            app = app_of(s, doc({'/a': {'get': mk('o1', a), 'put': mk('o2', b)}, '/b': {'get': mk('o3', c)}}, **({f: glob[g]} if glob[g] is not None else {})))
            for oid, k in (('o1', a), ('o2', b), ('o3', c)):
                want = own[k] if own[k] is not None else glob[g] or []
                expect(s, s.attr(op_of(s, app, oid), f), want, 'inherit', '%s of an operation (%s) in a document (%s)' % (f, k, g))
            expect(s, s.attr(s.attr(app, 'root'), f), glob[g] or [], 'unchanged', '%s of the document' % f)
        run.explore(f, body)


def schemes(run):
    def body(s):
        opts = (None, ['http'], ['https'], ['ws', 'https'], ['http', 'https', 'wss'])
        g, a, b = s.choice('document', *opts), s.choice('operation', *opts), s.choice('sibling', *opts)
        mk = lambda oid, k: dict({'operationId': oid, 'responses': resp()}, **({'schemes': k} if k else {}))
        d = doc({'/a': {'get': mk('o1', a), 'put': mk('o2', b)}}, schemes=g)
        if not g:
            del d['schemes']
        app = app_of(s, d, url=s.choice('location', URL, 'https://h.com/swagger.json') if not g else URL)
        base = g or [s.R(s.attr(app, 'url')).split(':')[0]]
        for oid, k in (('o1', a), ('o2', b)):
            eff = k or base
            expect(s, s.attr(s.items(s.must(op_of(s, app, oid)))[0], 'schemes'), eff, 'schemes', 'schemes of a request')
        expect(s, s.attr(s.attr(app, 'root'), 'schemes'), g or [], 'unchanged', 'schemes of the document')
    run.explore('schemes', body)


def security(run):
    def body(s):
        n = [name(s, 'n%d' % i) for i in range(3)]
        opts = ('absent', 'empty', 'one', 'two')
        val = lambda k, i: {'absent': None, 'empty': [], 'one': [{n[i]: []}], 'two': [{n[i]: []}, {n[2]: []}]}[k]
        g, a, b = s.choice('document', *opts), s.choice('operation', *opts), s.choice('sibling', *(opts if run.tier != 'quick' else opts[::2]))
        mk = lambda oid, k: dict({'operationId': oid, 'responses': resp()}, **({'security': val(k, 0)} if val(k, 0) is not None else {}))
        app = app_of(s, doc({'/a': {'get': mk('o1', a), 'put': mk('o2', b)}}, **({'security': val(g, 1)} if val(g, 1) is not None else {})))
        for oid, k in (('o1', a), ('o2', b)):
            got = s.R(s.attr(op_of(s, app, oid), 'security'))
            want = val(k, 0) if k != 'absent' else val(g, 1)
            names = None if got is None else [x for e in texts(s, got) for x in plain(s, e)]
            spec = None if want is None else [x for e in want for x in e]
            s.check((names or []) == (spec or []) or names is not None and spec is not None and len(names) == len(spec) and all(s.same(x, y) for x, y in zip(names, spec)), 'security',
                    lambda: 'security of an operation (%s) in a document (%s) is %s, specified %s' % (k, g, show(got), want))
    run.explore('security', body)


def parameters(run):
    for by in ('inline', 'by reference', 'by reference to another document'):
        for item in ([], [0], [0, 1], [1, 0, 2]):
            if item or by == 'inline':
                given(run, by, item)


def given(run, by, item):
    """own ones, and those of the path item that are not redefined"""
    def body(s):
        n = [name(s, 'n%d' % i) for i in range(4)]
        f = [s.token('f%d' % i) for i in range(8)]

        def prm(i, j):
            return {'name': n[i], 'in': 'query', 'type': 'string', 'description': f[j]}
        own = s.choice('operation', None, [], [0], [3], [3, 0], [1, 3], [0, 1, 2])
        sib = s.choice('sibling', *([None, [0], [2]] if run.tier != 'quick' else [None, [0]]))
        byo = s.choice('own parameters', 'inline', 'by reference') if own else 'inline'
        root = {'parameters': {}}
        oth = {}

        def place(p, key, how):
            if how == 'inline':
                return p
            if how == 'by reference':
                root['parameters'][key] = p
                return {'$ref': '#/parameters/' + key}
            oth[key] = p
            return {'$ref': 'other.json#/parameters/' + key}
        pi = [place(prm(i, i), 'i%d' % i, by) for i in item]
        mk = lambda oid, ps: dict({'operationId': oid, 'responses': resp()}, **({'parameters': ps} if ps is not None else {}))
        po = None if own is None else [place(prm(i, 4 + i), 'o%d' % i, byo) for i in own]
        ps = None if sib is None else [prm(i, 4 + i) for i in sib]
        d = doc({'/a': dict({'get': mk('o1', po), 'put': mk('o2', ps)}, **({'parameters': pi} if pi else {})), '/b': {'get': mk('o3', [prm(3, 3)]), 'put': mk('o4', None)}}, **root)
        app = app_in(s, [(URL, d), (OTHER, doc({}, parameters=oth))])
        fin = lambda p: s.R(s.attr(p, 'final')) or p

        def seen(ps_):
            return [(s.R(s.attr(fin(p), 'name')), s.R(s.attr(fin(p), 'description'))) for p in texts(s, ps_)] if s.R(ps_) is not None else []
        for oid, k in (('o1', own), ('o2', sib), ('o3', [3]), ('o4', None)):
            it = item if oid in ('o1', 'o2') else []
            j = (lambda i: 3) if oid == 'o3' else (lambda i: 4 + i)
            want = [(n[i], f[j(i)]) for i in k or []] + [(n[i], f[i]) for i in it if i not in (k or [])]
            got = seen(s.attr(op_of(s, app, oid), 'parameters'))
            left = list(got)
            for w in want:
                hit = [x for x in left if s.same(x[0], w[0]) and s.same(x[1], w[1])]
                if hit:
                    left.remove(hit[0])
            s.check(len(got) == len(want) and not left, 'parameters', lambda: 'parameters of %s are %s, specified %s' % (oid, show(tuple(got)), show(tuple(want))))
            s.check(s.same(tuple(got[:len(k or [])]), tuple(want[:len(k or [])])), 'order', lambda: 'the own parameters of %s are %s, specified %s' % (oid, show(tuple(got)), show(tuple(want))))
            req, _ = s.items(s.must(op_of(s, app, oid), **{}))
            o = s.call(s.fn('call', lambda I, a, kw: I.call(op_of(s, app, oid), [], {})))
            s.check(o.ok, 'usable', lambda: '%r' % (o,), o.site)
        got = seen(s.attr(s.item(s.attr(s.attr(app, 'root'), 'paths'), '/a'), 'parameters'))
        s.check(s.same(tuple(got), tuple((n[i], f[i]) for i in item)), 'unchanged', lambda: 'parameters of the path item are %s' % show(tuple(got)))
    run.explore('parameters %s of the path item %s' % (by, item), body)


def places(run):
    """method, path, base path and URL of every operation"""
    for k in METHODS:
        located(run, k)

    def byref(s):
        """operations of a path item given by reference belong to the path that refers to it"""
        x = s.token('x')
        where = s.choice('target', 'other document', 'same document')
        users = s.choice('users', 1, 2)
        it = {'get': {'summary': x, 'responses': resp()}, 'parameters': [{'name': 'p', 'in': 'query', 'type': 'string'}]}
        root = doc({'/u%d' % i: {'$ref': 'other.json#/paths/~1t' if where == 'other document' else '#/paths/~1t'} for i in range(users)}, consumes=['m/m'])
        oth = doc({}, basePath='/other', consumes=['n/n'])
        (oth if where == 'other document' else root)['paths']['/t'] = it
        app = app_in(s, [(URL, root), (OTHER, oth)])
        for p in ['/u%d' % i for i in range(users)] + ([] if where == 'other document' else ['/t']):
            op = s.attr(s.item(s.attr(s.attr(app, 'root'), 'paths'), p), 'get')
            s.same_ob(s.attr(op, 'summary'), x, 'reference', 'summary')
            s.same_ob(s.attr(op, 'path'), p, 'path', 'path')
            s.same_ob(s.attr(op, 'method'), 'get', 'method', 'method')
            s.same_ob(s.attr(op, 'url'), '//h.com/v1' + p, 'url', 'URL')
            expect(s, s.attr(op, 'consumes'), ['m/m'], 'inherit', 'consumes')
            ps = s.attr(op, 'parameters')
            s.check(s.len(ps) == 1, 'parameters', lambda: '%s parameters at %s' % (show(s.len(ps)), p))
    run.explore('path items by reference', byref)


def located(run, k):
    def body(s):
        a, b = name(s, 'a'), name(s, 'b')
        ps = [s.cat('/', a), s.cat('/', a, '/', b), s.cat('/{', b, '}/', a), '/', s.cat('/', a, '/')]
        base = s.choice('base path', None, '/v1', s.cat('/', b))
        host = s.choice('host', None, 'h.com', 'h.com:8080')
        loc = s.choice('location', URL, 'http://o.com:81/x/swagger.json')
        k2 = METHODS[(METHODS.index(k) + 3) % 7]
        d = doc({p: {k: {'operationId': 'o%d' % i, 'responses': resp()}, k2: {'operationId': 'p%d' % i, 'responses': resp()}} for i, p in enumerate(ps)}, host=host, basePath=base)
        for f, v in (('host', host), ('basePath', base)):
            if v is None:
                del d[f]
        app = app_of(s, d, url=loc)
        h = host or ('h.com' if loc == URL else 'o.com:81')
        for i, p in enumerate(ps):
            for o, m in (('o%d' % i, k), ('p%d' % i, k2)):
                op = op_of(s, app, o)
                s.same_ob(s.attr(op, 'method'), m, 'method', 'method')
                s.same_ob(s.attr(op, 'path'), p, 'path', 'path')
                s.same_ob(s.attr(op, 'base_path'), base, 'base path', 'base path')
                s.same_ob(s.attr(op, 'url'), s.cat('//', h, base or '', p), 'url', 'URL')
                # the same operation is at its place in the document
                own = s.attr(s.item(s.attr(s.attr(app, 'root'), 'paths'), p), m)
                s.check(s.I.U(own) is s.I.U(s.R(op)), 'same', 'the operation by identifier is not the one of the document')
    run.explore('places of ' + k, body)


def reach(run):
    def body(s):
        n, t = [name(s, 'n%d' % i) for i in range(2)], [name(s, 't%d' % i) for i in range(2)]
        forms = [(0, None), (0, 0), (0, 1), (1, None), (1, 0), (None, 0), (None, None), (0, 'empty')]
        A, B = s.choice('first', *forms), s.choice('second', *forms)
        same = s.choice('in', 'one path item', 'two')

        def mk(f, x):
            i, k = f
            o = {'responses': resp(), 'summary': x}
            if i is not None:
                o['operationId'] = n[i]
            if k is not None:
                o['tags'] = [] if k == 'empty' else [t[k]]
            return o
        x = [s.token('x0'), s.token('x1')]
        ps = {'/a': {'get': mk(A, x[0]), 'put': mk(B, x[1])}} if same == 'one path item' else {'/a': {'get': mk(A, x[0])}, '/b': {'get': mk(B, x[1])}}
        app = app_of(s, doc(ps), prepare=False)
        o = s.meth(app, 'prepare')
        norm = lambda f: (f[0], None if f[1] == 'empty' else f[1])
        if A[0] is not None and norm(A) == norm(B):
            s.check(o.is_exc('SchemaError'), 'duplicate', lambda: 'two operations %s: %r, specified SchemaError' % ((A, B), o), o.site)
            return
        s.check(o.ok, 'accept', lambda: 'operations %s: %r' % ((A, B), o), o.site)
        d = s.attr(app, 'op')
        s.check(s.len(d) == sum(f[0] is not None for f in (A, B)), 'reach', lambda: '%s operations by identifier' % show(s.len(d)))
        for f, g, y in ((A, B, x[0]), (B, A, x[1])):
            i, k = norm(f)
            if i is None:
                continue
            keys = [n[i]] if k is None else [(t[k], n[i])] + ([n[i]] if norm(g)[0] != i else [])
            for key in keys:
                o = s.meth(d, '__getitem__', key)
                s.check(o.ok, 'reach', lambda: 'operation %s of %s: %r' % (show(key), (A, B), o), o.site)
                s.same_ob(s.attr(o.value, 'summary'), y, 'reach', 'operation %s' % show(key))
    run.explore('identifiers and tags', body)

    def tags(s):
        """every tag leads to its operations"""
        app = app_of(s, doc({'/a': {'get': {'operationId': 'o', 'tags': ['t', 'u'], 'responses': resp()}}}))
        o = s.meth(s.attr(app, 'op'), '__getitem__', ('u', 'o'))
        s.check(o.ok, 'tags', lambda: 'the operation is not found by its second tag: %r' % (o,), o.site)
    run.explore('several tags', tags)

    def many(s):
        """all methods of several paths"""
        ps = ['/' + c for c in 'abc']
        app = app_of(s, doc({p: {m: {'operationId': m + p[1:], 'summary': m + p, 'responses': resp()} for m in METHODS} for p in ps}))
        d = s.attr(app, 'op')
        s.check(s.len(d) == 21, 'reach', lambda: '%s of 21 operations by identifier' % show(s.len(d)))
        for p in ps:
            for m in METHODS:
                s.same_ob(s.attr(s.item(d, m + p[1:]), 'summary'), m + p, 'reach', m + p)
    run.explore('every operation', many)


def shared(run):
    """operations do not share what they inherit in a way that using one changes another"""
    def body(s):
        p = {'name': 'p', 'in': 'query', 'type': 'string', 'default': 'x'}
        app = app_of(s, doc({'/a': {'parameters': [p], 'get': {'operationId': 'o1', 'responses': resp()}, 'put': {'operationId': 'o2', 'responses': resp()}}}, consumes=['m/m'], produces=['n/n'], security=[{'k': []}]))
        a, b = op_of(s, app, 'o1'), op_of(s, app, 'o2')
        la, lb, li = [s.I.U(s.R(s.attr(x, 'parameters'))) for x in (a, b, s.item(s.attr(s.attr(app, 'root'), 'paths'), '/a'))]
        s.check(la is not lb and la is not li and lb is not li, 'own list', 'operations and path item hold one list of parameters')
    run.explore('lists of parameters', body)
