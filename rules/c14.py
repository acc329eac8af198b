"""Composed headers.  Requests with zero to two headers of generic values, every list (0..3 pairs, names repeated or shared with
the request) and dict of caller headers with generic names and values, joined or not, as pairs or dict: every name carries
exactly the specified values in order, and neither the caller's headers nor those of the request are modified."""
from .common import *
from .c07 import decl


def pairs(s, v):
    return [s.items(x) for x in s.items(v)]


def group(s, ps):
    """ordered values by name; names are constants or fresh tokens"""
    out = []
    for n, v in ps:
        for g in out:
            if s.same(g[0], n):
                g[1].append(v)
                break
        else:
            out.append((n, [v]))
    return out


def same_groups(s, got, want, rule, what):
    s.check(len(got) == len(want), rule, lambda: '%s: names %s, specified %s' % (what, [show(n) for n, _ in got], [show(n) for n, _ in want]))
    for n, vs in want:
        g = [x for x in got if s.same(x[0], n)]
        s.check(len(g) == 1, rule, lambda: '%s: header %s is missing' % (what, show(n)))
        s.check(len(g[0][1]) == len(vs), rule, lambda: '%s: header %s has values %s, specified %s' % (what, show(n), [show(x) for x in g[0][1]], [show(x) for x in vs]))
        for a, b in zip(g[0][1], vs):
            s.same_ob(a, b, rule, '%s: header %s' % (what, show(n)))


def joined(s, groups):
    out = []
    for n, vs in groups:
        v = vs[0]
        for x in vs[1:]:
            v = s.cat(v, ',', x)
        out.append((n, [v]))
    return out


def check(run):
    def compose(nreq, kind, shape):
        """shape: the caller's names; an int is a fresh name, a str is a header of the request"""
        def setup(s):
            app = app_of(s, opdoc([decl(n, 'header') for n in 'hk'[:nreq]]))
            return app, s.must('pyswagger.core:BaseClient')

        def body(s, pre):
            app, cl = pre
            rv = [(n, s.sym('v' + n, 'str')) for n in 'hk'[:nreq]]
            req = s.items(s.I_call(op_of(s, app), dict(rv)).value)[0]
            names = {x: s.token('n%d' % x) for x in shape if isinstance(x, int)}
            hv = [(names.get(x, x), s.sym('w%d' % i, 'str')) for i, x in enumerate(shape)]
            if kind == 'list':
                hs = s.list(*[tuple(p) for p in hv])
            elif kind == 'dict':
                hs = s.dict(*hv)
            else:
                hs = None
            join = s.choice('join', None, True, False)
            as_dict = s.choice('form', None, False, True)
            kw = {}
            if as_dict is not None:
                kw['as_dict'] = as_dict
            if join is not None:
                kw['opt'] = s.dict((s.attr(s.get('pyswagger.core:BaseClient'), 'join_headers'), join))
            elif s.choice('opt', 0, 1):
                kw['opt'] = s.dict()
            s.must(s.attr(req, 'prepare'))
            o = s.meth(cl, 'compose_headers', req, **(dict(kw, headers=hs) if hs is not None or s.choice('headers given', True, False) else kw))
            s.check(o.ok, 'accept', lambda: '%r' % (o,), o.site)
            allh = group(s, rv + hv)
            if as_dict:
                got = [(k, [s.item(o.value, k)]) for k in s.items(o.value)]
                if join:
                    want = joined(s, allh)
                else:
                    want = [(n, vs[:1] if n in dict(rv) else vs[-1:]) for n, vs in allh]
            else:
                got = pairs(s, o.value)
                got = group(s, got)
                want = joined(s, allh) if join and hs is not None else allh
            same_groups(s, got, want, 'headers', 'composed')
            # nothing of the request or the caller has changed
            h = s.attr(req, 'header')
            same_groups(s, [(k, [s.item(h, k)]) for k in s.items(h)], [(n, [v]) for n, v in rv], 'request', 'headers of the request')
            if kind == 'list':
                ps = pairs(s, hs)
                s.check(len(ps) == len(hv), 'caller', 'the list of the caller has %d pairs, had %d' % (len(ps), len(hv)))
                for a, b in zip(ps, hv):
                    s.same_ob(a[0], b[0], 'caller', 'name passed by the caller')
                    s.same_ob(a[1], b[1], 'caller', 'value passed by the caller')
            elif kind == 'dict':
                same_groups(s, [(k, [s.item(hs, k)]) for k in s.items(hs)], [(n, [v]) for n, v in hv], 'caller', 'dict of the caller')
            # the same again
            o2 = s.meth(cl, 'compose_headers', req)
            s.check(o2.ok, 'accept', lambda: '%r' % (o2,), o2.site)
            same_groups(s, group(s, pairs(s, o2.value)), [(n, [v]) for n, v in rv], 'request', 'headers of the request composed alone')
        run.explore('%d request headers, caller %s %s' % (nreq, kind, shape), body, setup)

    for nreq in (0, 1, 2):
        compose(nreq, 'none', ())
        for shape in ((), (0,), (0, 1), (0, 0), (0, 1, 0), (0, 0, 0), ('h',), ('h', 0), (0, 'h'), ('h', 'h'), ('h', 0, 'h'), ('k', 'h')):
            if any(isinstance(x, str) and x not in 'hk'[:nreq] for x in shape):
                continue
            compose(nreq, 'list', shape)
            if len(set(shape)) == len(shape):
                compose(nreq, 'dict', shape)

    def other():
        def setup(s):
            return app_of(s, opdoc([decl('h', 'header')])), s.must('pyswagger.core:BaseClient')

        def body(s, pre):
            app, cl = pre
            req = s.items(s.must(op_of(s, app), h=s.sym('v', 'str')))[0]
            bad = s.choice('headers', 'str', 'int', 'float')
            v = s.token('bad') if bad == 'str' else s.sym('bad', bad)
            o = s.meth(cl, 'compose_headers', req, v, as_dict=s.choice('form', False, True))
            s.check(not o.ok, 'reject', lambda: 'headers of type %s: %r' % (bad, o), o.site)
        run.explore('headers of another type', body, setup)
    other()
