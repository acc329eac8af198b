"""Names.  jp_compose and jp_split over every sequence of up to four pieces out of the characters pointers escape, their
escapes and generic text; ScopeDict over key sets whose scopes are generic, requested by full key, by tuple, by every trailing
part and by texts that only look like one; scope_compose/scope_split; App.op and App.m with the separator of the application."""
import itertools

from .common import *

PIECES = ('~', '/', '0', '1', None, '')


def check(run):
    pointers(run)
    lists(run)
    scopes(run)
    compose(run)
    apps(run)


def words(n):
    """words over the alphabet {~, /, 0, 1, generic text} of length up to n (adjacent generic texts are one)"""
    for k in range(n + 1):
        for w in itertools.product(PIECES[:-1], repeat=k):
            if not any(a is None and b is None for a, b in zip(w, w[1:])):
                yield w


def spell(w):
    return ['~0' if c == '~' else '~1' if c == '/' else c for c in w]


def pointers(run):
    n = 4 if run.tier == 'quick' else 5
    for first in PIECES[:-1]:
        ws = [w for w in words(n) if w and w[0] == first]

        def body(s, ws=ws):
            g = s.token('g', nochars='~/')
            h = s.token('h', nochars='~/')

            def text(w):
                it = iter([g, h, g])
                return s.cat('', *[next(it) if c is None else c for c in w])
            for w in ws:
                if sum(c is None for c in w) > 3:
                    continue
                t = text(w)
                e = text(spell(w))
                o = s.call('pyswagger.utils:jp_compose', t)
                s.check(o.ok, 'encode', lambda: 'jp_compose(%s): %r' % (show(t), o), o.site)
                s.same_ob(o.value, e, 'encode', 'jp_compose(%s)' % show(t))
                o = s.call('pyswagger.utils:jp_split', e)
                s.check(o.ok, 'decode', lambda: 'jp_split(%s): %r' % (show(e), o), o.site)
                s.check(s.len(o.value) == 1, 'decode', lambda: 'jp_split(%s) has %s parts' % (show(e), show(s.len(o.value))))
                s.same_ob(s.item(o.value, 0), t, 'decode', 'jp_split(%s)' % show(e))
        run.explore('names starting with %s' % {None: 'text'}.get(first, first), body)


def lists(run):
    """joining and splitting several names"""
    def body(s):
        g = [s.token('g%d' % i, nochars='~/') for i in range(3)]
        forms = lambda i: [(g[i], g[i]), (s.cat(g[i], '/'), s.cat(g[i], '~1')), (s.cat('~', g[i]), s.cat('~0', g[i])), (s.cat('/', g[i], '~1'), s.cat('~1', g[i], '~01')), ('', ''), ('~', '~0'), ('/', '~1')]
        n = s.choice('names', 1, 2, 3)
        pick = [forms(i)[s.choice('name %d' % i, *range(7))] for i in range(n)]
        base, bparts = s.choice('base', (None, 0), ('#', 0), ('#/a', 0), (s.cat('#/', g[0], '~1b'), 1))[0], None
        if base is None and n == 1 and pick[0][0] == '':
            raise Skip()
        want = [x for x, _ in pick]
        if base is not None:
            want = ([base] if base == '#' else ['#', 'a'] if isinstance(base, str) else ['#', s.cat(g[0], '/b')]) + want
        given = s.list(*[x for x, _ in pick])
        o = s.call('pyswagger.utils:jp_compose', given, base)
        s.check(o.ok, 'join', lambda: '%r' % (o,), o.site)
        enc = []
        for k, (_, e) in enumerate(pick):
            enc += ['/', e] if k else [e]
        s.same_ob(o.value, s.cat(*([base, '/'] if base is not None else ['']) + enc), 'join', 'jp_compose')
        s.check(s.len(given) == n and all(s.same(s.item(given, k), pick[k][0]) for k in range(n)), 'caller', 'jp_compose changes the list it is given')
        o = s.call('pyswagger.utils:jp_split', o.value)
        s.check(o.ok, 'split', lambda: '%r' % (o,), o.site)
        s.check(s.len(o.value) == len(want), 'split', lambda: 'jp_split gives %s, specified %s' % (show(s.len(o.value)), len(want)))
        for k, x in enumerate(want):
            s.same_ob(s.item(o.value, k), x, 'split', 'part %d' % k)
    run.explore('lists of names', body)

    def nothing(s):
        b = s.token('base')
        s.same_ob(s.must('pyswagger.utils:jp_compose', None, b), b, 'nothing', 'jp_compose(None, base)')
        s.same_ob(s.must('pyswagger.utils:jp_compose', None), None, 'nothing', 'jp_compose(None)')
        for v in (None, ''):
            s.check(s.len(s.must('pyswagger.utils:jp_split', v)) == 0, 'nothing', 'jp_split(%r) is not empty' % (v,))
    run.explore('no name', nothing)


SEPS = ('!##!', '/', '.', ':', '--')


def scopes(run):
    shapes = [[('a', 'x')], [('a', 'x'), ('b', 'x')], [('a', 'x'), ('b', 'y')], [('a', 'b', 'x'), ('c', 'b', 'x')], [('a', 'b', 'x'), ('c', 'd', 'x')], [('a', 'b', 'x'), ('b', 'x')],
              [('x',), ('a', 'x')], [('x',), ('b', 'y')], [('a', 'x'), ('a', 'y'), ('b', 'x'), ('x',)], [('a', 'x', 'x'), ('a', 'x')], [('ax',), ('a', 'x')], [('a', 'xx'), ('b', 'x')],
              [('a', 'bx'), ('c', 'x')], [('a', 'x', 'b'), ('b', 'c')], [('a', 'cx'), ('b', 'dx')]]
    asked = [('x',), ('y',), ('a', 'x'), ('b', 'x'), ('a', 'b', 'x'), ('d', 'x'), ('c', 'd', 'x'), ('a',), ('b',), ('z',), ('x', 'a'), ('xx',), ('a', 'a', 'x')]
    for ks in shapes:
        def body(s, ks=ks):
            sep = s.choice('separator', *(SEPS if run.tier != 'quick' else SEPS[:2]))
            tok = {c: s.token(c, nochars='!#/.:-+') for c in 'abcdxyz'}
            word = lambda w: s.cat('', *[x for c in w for x in ('+', tok[c])][1:])

            def full(t):
                r = word(t[0])
                for w in t[1:]:
                    r = s.cat(r, sep, word(w))
                return r
            vals = {t: s.token('v' + '.'.join(t)) for t in ks}
            how = s.choice('made from', 'dict', 'pairs', 'update')
            ents = [(full(t), vals[t]) for t in ks]
            d = s.must('pyswagger.utils:ScopeDict', *([s.dict(*ents)] if how == 'dict' else [s.list(*[tuple(e) for e in ents])] if how == 'pairs' else []))
            if how == 'update':
                for k, v in ents:
                    s.must(s.attr(d, '__setitem__'), k, v)
            if sep != '!##!':
                s.I.setattr_(d, 'sep', sep)
            for t in asked:
                hits = [k for k in ks if k == t] or [k for k in ks if len(k) > len(t) and k[-len(t):] == t]
                for key in [full(t)] + ([tuple(word(w) for w in t)] if len(t) > 1 else []) + ([(full(t[:-1]), word(t[-1]))] if len(t) > 2 else []):
                    o = s.meth(d, '__getitem__', key)
                    what = lambda: 'keys %s, asked for %s' % (['.'.join(k) for k in ks], '.'.join(t))
                    if len(hits) == 1:
                        s.check(o.ok, 'found', lambda: '%s: %r' % (what(), o), o.site)
                        s.same_ob(o.value, vals[hits[0]], 'entry', what())
                    elif hits:
                        s.check(o.is_exc('ValueError'), 'ambiguous', lambda: '%s: %r, specified ValueError' % (what(), o), o.site)
                    else:
                        s.check(o.is_exc('KeyError'), 'unknown', lambda: '%s: %r, specified KeyError' % (what(), o), o.site)
            s.check(s.len(d) == len(ks), 'kept', 'reading changes the collection')
            # another collection has its own separator
            e = s.must('pyswagger.utils:ScopeDict', s.dict((s.cat(tok['a'], '!##!', tok['x']), 1)))
            o = s.meth(e, '__getitem__', (tok['a'], tok['x']))
            s.check(o.ok, 'own separator', lambda: 'another collection: %r' % (o,), o.site)
        run.explore('keys %s' % ' '.join('.'.join(k) for k in ks), body)

    def wr(s):
        d = s.must('pyswagger.utils:ScopeDict')
        o = s.call(s.fn('get', lambda I, a, k: I.getattr_(d, 'sep')))
        s.check(o.is_exc('TypeError'), 'write only', lambda: 'reading sep: %r' % (o,), o.site)
    run.explore('separator is write-only', wr)


def compose(run):
    def body(s):
        sep = s.choice('separator', None, '/', '--')
        x = sep or '!##!'
        kw = {'sep': sep} if sep else {}
        a, b, c = [s.token(n, nochars='!#/-') for n in 'abc']
        C = lambda p, q: s.must('pyswagger.utils:scope_compose', p, q, **kw)
        s.same_ob(C(a, b), s.cat(a, x, b), 'compose', 'two names')
        s.same_ob(C(C(a, b), c), s.cat(a, x, b, x, c), 'compose', 'three names')
        s.same_ob(C(None, b), b, 'compose', 'no scope')
        s.same_ob(C(a, None), a, 'compose', 'no name')
        s.same_ob(C(None, None), None, 'compose', 'nothing')
        s.same_ob(C('', b), b, 'compose', 'empty scope')
        for t in ([a], [a, b], [a, b, c]):
            k = t[0]
            for y in t[1:]:
                k = C(k, y)
            o = s.must('pyswagger.utils:scope_split', k, **kw)
            s.check(s.len(o) == len(t), 'split', lambda: '%s is split into %s parts' % (show(k), show(s.len(o))))
            for i, y in enumerate(t):
                s.same_ob(s.item(o, i), y, 'split', 'part %d' % i)
        o = s.must('pyswagger.utils:scope_split', None, **kw)
        s.check(s.len(o) == 1 and s.item(o, 0) is None, 'split', 'no scope')
    run.explore('composing scopes', body)


def apps(run):
    """operations by tag and operationId, models by scope"""
    def body(s):
        sep = s.choice('separator', None, '/', '.')
        t, u, n, m = [name(s, x) for x in 'tunm']
        x = [s.token('x%d' % i) for i in range(4)]

        def op(i, nm, *tags):
            return {'operationId': nm, 'tags': list(tags), 'summary': x[i], 'responses': resp()} if tags else {'operationId': nm, 'summary': x[i], 'responses': resp()}
        d = doc({'/a': {'get': op(0, n, t), 'put': op(1, n, u)}, '/b': {'get': op(2, m, t), 'put': op(3, s.cat(n, '+'))}}, definitions={m: {'type': 'string', 'description': x[0]}})
        app = app_of(s, d, **({'sep': sep} if sep else {}))
        ops, ms = s.attr(app, 'op'), s.attr(app, 'm')
        P = sep or '!##!'
        for key, want in [((t, n), 0), ((u, n), 1), ((t, m), 2), (m, 2), (s.cat(n, '+'), 3), (s.cat(t, P, n), 0), (s.cat(u, P, n), 1), (s.cat(t, P, m), 2)]:
            o = s.meth(ops, '__getitem__', key)
            s.check(o.ok, 'operation', lambda: 'operation %s: %r' % (show(key), o), o.site)
            s.same_ob(s.attr(o.value, 'summary'), x[want], 'operation', 'operation %s' % show(key))
        o = s.meth(ops, '__getitem__', n)
        s.check(o.is_exc('ValueError'), 'ambiguous', lambda: 'two operations: %r' % (o,), o.site)
        for key in ((u, m), t, s.cat(m, 'y'), (n, t)):
            o = s.meth(ops, '__getitem__', key)
            s.check(o.is_exc('KeyError'), 'unknown', lambda: 'operation %s: %r' % (show(key), o), o.site)
        s.same_ob(s.attr(s.item(ms, m), 'description'), x[0], 'model', 'model')
        o = s.meth(ms, '__getitem__', t)
        s.check(o.is_exc('KeyError'), 'unknown', lambda: 'model: %r' % (o,), o.site)
    run.explore('operations and models by scope', body)
