"""Header collections.  Every history of three assignments, removals, updates and reads over two entries with generic names in
several spellings; afterwards reading, testing, length, keys, items, values and iteration agree with a table that keeps one
entry per name (case ignored) with the spelling and value last set."""
from .common import *

OPS = ('set', 'set', 'set upper', 'del', 'update dict', 'update pairs', 'update keyword', 'setdefault', 'pop', 'pop default', 'get', 'clear')


def check(run):
    def history(first, steps):
        def setup(s):
            return None

        def body(s, _):
            d = s.must('pyswagger.utils:CaseInsensitiveDict')
            gen = s.token('n', nochars='ABCDEFGHIJKLMNOPQRSTUVWXYZ', ascii=True)
            spell = {'a': (gen, s.I.mk_upper(gen)), 'b': ('X-Bb', 'x-bB')}
            table = {}    # entry -> [spelling, value]

            def key(e, i):
                return spell[e][i]

            def setv(e, i, v):
                table[e] = [key(e, i), v]
            for n in range(steps):
                op = first if n == 0 and first else s.choice('step %d' % n, *OPS[1:])
                e = s.choice('entry %d' % n, *(('a',) if n == 0 else ('a', 'b')))
                i = s.choice('spelling %d' % n, 0, 1)
                k = key(e, i)
                v = s.sym('v%d' % n)
                if op.startswith('set') and op != 'setdefault':
                    s.I.setitem(d, k, v)
                    setv(e, i, v)
                elif op == 'del':
                    o = s.call(s.fn('del', lambda I, a, kw: I.delitem(d, k)))
                    s.check(o.ok if e in table else o.is_exc('KeyError'), 'delete', lambda: 'deleting %s: %r' % (show(k), o), o.site)
                    table.pop(e, None)
                elif op in ('update dict', 'update pairs'):
                    o = s.meth(d, 'update', s.dict((k, v)) if op == 'update dict' else s.list((k, v)))
                    s.check(o.ok, 'update', lambda: '%r' % (o,), o.site)
                    setv(e, i, v)
                elif op == 'update keyword':
                    o = s.I_call(s.attr(d, 'update'), {'xy': v})
                    s.check(o.ok, 'update', lambda: '%r' % (o,), o.site)
                    table['xy'] = ['xy', v]
                elif op == 'setdefault':
                    o = s.meth(d, 'setdefault', k, v)
                    s.check(o.ok, 'setdefault', lambda: '%r' % (o,), o.site)
                    if e not in table:
                        setv(e, i, v)
                    s.same_ob(o.value, table[e][1], 'setdefault', 'value returned')
                elif op == 'pop':
                    o = s.meth(d, 'pop', k)
                    s.check(o.ok if e in table else o.is_exc('KeyError'), 'pop', lambda: '%r' % (o,), o.site)
                    if e in table:
                        s.same_ob(o.value, table.pop(e)[1], 'pop', 'value returned')
                elif op == 'pop default':
                    o = s.meth(d, 'pop', k, v)
                    s.check(o.ok, 'pop', lambda: '%r' % (o,), o.site)
                    s.same_ob(o.value, table.pop(e)[1] if e in table else v, 'pop', 'value returned')
                elif op == 'get':
                    o = s.meth(d, 'get', k, v)
                    s.check(o.ok, 'get', lambda: '%r' % (o,), o.site)
                    s.same_ob(o.value, table[e][1] if e in table else v, 'get', 'value returned')
                elif op == 'clear':
                    s.must(s.attr(d, 'clear'))
                    table.clear()
            # reading, under every spelling
            for e, ks in list(spell.items()) + [('xy', ('xy', 'XY', 'Xy'))]:
                for k in ks:
                    o = s.call(s.fn('get', lambda I, a, kw: I.getitem(d, k)))
                    if e in table:
                        s.check(o.ok, 'read', lambda: 'reading %s: %r' % (show(k), o), o.site)
                        s.same_ob(o.value, table[e][1], 'read', 'value of %s' % show(k))
                    else:
                        s.check(o.is_exc('KeyError'), 'read', lambda: 'reading absent %s: %r' % (show(k), o), o.site)
                    s.check(s.truth(s.I.contains(d, k)) == (e in table), 'test', lambda: '%s in collection: %s' % (show(k), e not in table))
            # enumeration
            s.check(s.len(d) == len(table), 'length', lambda: 'length is %s, specified %d' % (show(s.len(d)), len(table)))
            entries = list(table.values())

            def once(got, want, what):
                s.check(len(got) == len(want), what, lambda: '%s: %s, specified %s' % (what, [show(g) for g in got], [show(w) for w in want]))
                for w in want:
                    s.check(sum(1 for g in got if s.same(g, w)) == 1, what, lambda: '%s: %s, specified %s' % (what, [show(g) for g in got], [show(x) for x in want]))
            once(s.items(d), [e[0] for e in entries], 'iteration')
            for m in ('keys',):
                once(s.items(s.must(s.attr(d, m))), [e[0] for e in entries], m)
            for m in ('items', 'iteritems'):
                once([tuple(s.items(x)) for x in s.items(s.must(s.attr(d, m)))], [tuple(e) for e in entries], m)
            for m in ('values', 'itervalues'):
                got = s.items(s.must(s.attr(d, m)))
                keys = s.items(d)
                s.check(len(got) == len(keys), m, '%d values for %d keys' % (len(got), len(keys)))
                for k, v in zip(keys, got):
                    w = [e[1] for e in entries if s.same(e[0], k)]
                    s.same_ob(v, w[0], m, '%s of %s' % (m, show(k)))
        run.explore('history of %d from %s' % (steps, first or 'nothing'), body, setup, mods=('pyswagger',), max_paths=20000)

    for f in ('set', 'set upper', 'update dict', 'update pairs', 'setdefault', 'get', 'pop', 'del'):
        history(f, 2)
    history('set', 3)
    history('update dict', 3)

    def empty():
        def body(s):
            d = s.must('pyswagger.utils:CaseInsensitiveDict')
            e = s.must('pyswagger.utils:CaseInsensitiveDict')
            s.check(s.len(d) == 0 and not s.items(d), 'empty', 'a new collection is not empty')
            s.I.setitem(d, 'A', 1)
            s.check(s.len(e) == 0, 'shared', 'collections share their entries')
            o = s.call(s.fn('get', lambda I, a, kw: I.getitem(e, 'a')))
            s.check(o.is_exc('KeyError'), 'shared', 'collections share their entries')
        run.explore('new collections', body)
    empty()
