"""Lattice operations: truth, equality, ordering, kinds, string/number normal forms."""
import string as _string
from .values import *

_fmt = _string.Formatter()


def ord_key(x):
    return (1, x.n, '') if isinstance(x, Term) else (0, 0, repr(x))


class Sem(object):

    # ---------------------------------------------------------------- case split
    def split(self, options, label):
        """case split over the list of options (each feasible); returns one"""
        i = self.chooser.choose(len(options), label, self.loc())
        return options[i]

    # ---------------------------------------------------------------- resolve
    def R(self, v):
        """resolve a term by the path facts"""
        if isinstance(v, Term):
            b = self.F.bind
            if b:
                k = b.get(v, self)
                if k is not self:
                    return self.R(k) if isinstance(k, Term) else k
                if v.op not in ('sym', 'item', 'getitem', 'attr'):
                    return self.renorm(v)
        return v

    def renorm(self, t):
        if not isinstance(t, Term) or t.op == 'sym':
            if isinstance(t, Term) and t in self.F.bind:
                return self.R(self.F.bind[t])
            return t
        if t in self.F.bind:
            return self.R(self.F.bind[t])
        ch = False
        na = []
        for a in t.args:
            if isinstance(a, Term):
                b = self.renorm(a)
            elif isinstance(a, tuple):
                b = tuple(self.renorm(x) if isinstance(x, Term) else x for x in a)
                if all(x is y for x, y in zip(a, b)):
                    b = a
            else:
                b = a
            if b is not a:
                ch = True
            na.append(b)
        if not ch:
            return t
        f = self.CONS.get(t.op)
        r = f(self, *na) if f else T(t.op, *na, kinds=t.kinds)
        if isinstance(r, Term) and r in self.F.bind:
            return self.R(self.F.bind[r])
        return r

    def U(self, v):
        """unwrap weak proxies"""
        while isinstance(v, Proxy):
            v = v.ref
        return v

    # ---------------------------------------------------------------- kinds
    def kinds(self, v):
        v = self.R(v)
        if isinstance(v, Term):
            k = self.F.kinds.get(v)
            return v.kinds if k is None else k
        return frozenset([kind_of(self.U(v))])

    def set_kinds(self, t, ks):
        ks = frozenset(ks)
        if not ks:
            raise Infeasible()
        if ks == frozenset(['none']):
            self.bind(t, None)
        else:
            self.F.kinds[t] = ks

    def bind(self, t, c):
        self.F.bind[t] = c

    def kind(self, t, groups=None):
        """determine the kind of a value exactly (case split when ambiguous)"""
        t = self.R(t)
        if not isinstance(t, Term):
            return kind_of(self.U(t))
        ks = sorted(self.kinds(t))
        if len(ks) == 1:
            return ks[0]
        k = self.split(ks, 'kind(%s)' % show(t))
        self.set_kinds(t, [k])
        return k

    def has_kind(self, t, want, label=None):
        """is kind(t) in want?  splits on term kinds"""
        t = self.R(t)
        if not isinstance(t, Term):
            return kind_of(self.U(t)) in want
        ks = self.kinds(t)
        y = ks & frozenset(want)
        n = ks - frozenset(want)
        if not n:
            return True
        if not y:
            return False
        r = self.split([True, False], label or ('%s is %s' % (show(t), '/'.join(sorted(want)))))
        self.set_kinds(t, y if r else n)
        return r

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        v = self.R(v)
        if isinstance(v, CONST) or isinstance(v, tuple):
            return bool(v)
        if isinstance(v, Term):
            return self.truth_term(v)
        v = self.U(v)
        if isinstance(v, HDict):
            c = self.cls_of(v)
            if not c.builtin:
                m = self.mro_get(c, '__bool__') or self.mro_get(c, '__len__')
                if m is not None and isinstance(m, Fn):
                    return self.truth(self.call(m, [v], {}))
            return len(v.ents) > 0
        if isinstance(v, HList):
            return len(v.items) > 0
        if isinstance(v, NT):
            return len(v.items) > 0
        if isinstance(v, View):
            return len(v.d.ents) > 0
        if isinstance(v, Obj) and type(v) is Obj:
            c = self.cls_of(v)
            m = self.mro_get(c, '__bool__')
            if m is None:
                m = self.mro_get(c, '__len__')
            if m is not None:
                return self.truth(self.call(m, [v], {}))
            return True
        if isinstance(v, Ext):
            if v.name in self.LIBVAL:
                return self.truth(self.LIBVAL[v.name])
        return True

    def truth_term(self, v):
        f = self.F.truth.get(v)
        if f is not None:
            return f
        ks = self.kinds(v)
        r = self.len_truth(v, ks)
        if r is not None:
            return r
        opts = []
        if 'none' in ks:
            opts.append('none')
        if 'bool' in ks:
            opts.append('False')
        if ks & NUM and self.order_possible(v, 0, 0):
            opts.append('zero')
        if ks & SIZED:
            opts.append('empty')
        ne = self.F.ne.get(v)
        if ne:
            if ('NoneType', None) in ne and 'none' in opts:
                opts.remove('none')
            if ('bool', False) in ne and 'False' in opts:
                opts.remove('False')
            if ('int', 0) in ne and 'zero' in opts:
                opts.remove('zero')
            if ('str', '') in ne and ks == STR and 'empty' in opts:
                opts.remove('empty')
        tk = ks - frozenset(['none'])
        if tk:
            opts.append('truthy')
        o = self.split(opts, 'truth(%s)' % show(v)) if len(opts) > 1 else opts[0]
        if o == 'none':
            self.bind(v, None)
            return False
        if o == 'False':
            self.bind(v, False)
            return False
        if o == 'zero':
            self.bind(v, 0 if 'int' in ks else 0.0)
            return False
        if o == 'empty':
            sk = ks & SIZED
            self.set_kinds(v, sk)
            if sk == STR:
                self.bind(v, '')
            elif sk == BYTES:
                self.bind(v, b'')
            else:
                self.F.truth[v] = False
                self.F.misc[('len', v)] = 0
            return False
        self.F.truth[v] = True
        if v.op == 'len' or (tk <= NUM):
            self.F.ne.setdefault(v, set()).add(('int', 0))
        if tk == BOOL:
            self.bind(v, True)
        elif tk != ks:
            self.set_kinds(v, tk)
        return True

    def len_truth(self, v, ks):
        if v.op in ('digit', 'junk'):
            return True
        n = self.F.misc.get(('len', v))
        if n is not None and not (ks & (NUMERIC | frozenset(['none', 'obj', 'date', 'datetime', 'uuid']))):
            return n > 0
        if v.op == 'cat' and any(isinstance(a, str) and a or isinstance(a, Term) and a.op in ('digit', 'junk') for a in v.args):
            return True
        if v.op == 'bcat' and any(isinstance(a, bytes) and a for a in v.args):
            return True
        if v.op == 'sym' and v.fresh and ks == STR:
            return True
        if v.op == 'not':
            return not self.truth(v.args[0])
        if ks and ks <= frozenset(['obj', 'date', 'datetime', 'uuid']):
            return True
        return None

    # ---------------------------------------------------------------- equality
    def compat(self, a, b):
        a, b = set(a), set(b)
        if a & NUMERIC and b & NUMERIC:
            return True
        if a & frozenset(['date', 'datetime']) and b & frozenset(['date', 'datetime']):
            return True
        return bool(a & b)

    def eq(self, a, b, strict=False):
        a, b = self.R(a), self.R(b)
        a, b = self.U(a), self.U(b)
        if a is b:
            return True
        if isinstance(a, CONST) and isinstance(b, CONST):
            return a == b
        if isinstance(a, Term) or isinstance(b, Term):
            if not isinstance(a, Term):
                a, b = b, a
            ca = self.cells(a)
            if ca is not None:
                cb = self.cells(b)
                if cb is not None:
                    if len(ca) != len(cb):
                        return False
                    if len(ca) > 1:
                        # digits against letters first: no assumption is made about digits when these differ
                        z = [(x, y) for x, y in zip(ca, cb) if x is not y]
                        if any(self.cell_differs(x, y) for x, y in z):
                            return False
                        return all(self.eq(x, y) for x, y in z)
                    if self.cell_differs(ca[0], cb[0]):
                        return False
            return self.eq_term(a, b)
        if isinstance(a, NT):
            a = a.items
        if isinstance(b, NT):
            b = b.items
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and type(x) in (Obj, HDict, HList):
                m = self.mro_get(self.cls_of(x), '__eq__')
                if isinstance(m, Fn):
                    return self.truth(self.call(m, [x, y], {}))
                if x.cls is not None and x.cls.name == 'partial' and False:
                    pass
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, HSet) and isinstance(b, (HSet, View)) or isinstance(b, HSet) and isinstance(a, View):
            la = [k for k in self.iterate(a)]
            lb = [k for k in self.iterate(b)]
            return len(la) == len(lb) and all(any(self.eq(x, y) for y in lb) for x in la)
        if isinstance(a, HSet) or isinstance(b, HSet):
            return False
        if isinstance(a, HDict) and isinstance(b, HDict):
            if len(a.ents) != len(b.ents):
                return False
            for k, v in list(a.ents.values()):
                f, w = self.dget(b, k)
                if not f or not self.eq(v, w):
                    return False
            return True
        if isinstance(a, HList) and isinstance(b, HList):
            if len(a.items) != len(b.items):
                return False
            return all(self.eq(x, y) for x, y in zip(list(a.items), list(b.items)))
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if isinstance(a, Ext) or isinstance(b, Ext):
            e, o = (a, b) if isinstance(a, Ext) else (b, a)
            if e.name in self.LIBVAL:
                return self.eq(self.LIBVAL[e.name], o)
        if isinstance(a, BoundM) and isinstance(b, BoundM):
            return a.func is b.func and a.self_ is b.self_
        return False

    def eq_term(self, t, u):
        kt, ku = self.kinds(t), self.kinds(u)
        if not self.compat(kt, ku):
            return False
        if isinstance(u, CONST):
            if u is None:
                r = self.has_kind(t, ['none'], '%s is None' % show(t))
                return r
            ne = self.F.ne.get(t)
            k = ckey(u)
            if ne and k in ne:
                return False
            if t.fresh:
                return False
            if isinstance(u, str):
                if u == '' and self.F.truth.get(t) is True:
                    return False
                if not self.maybe_str(t, u):
                    return False
                if t.op == 'char' and t.args[1] in (0, -1) and not self.maybe_edge(t.args[0], t.args[1], u):
                    return False
            if isinstance(u, bool) and kt <= NUM:
                u = int(u)
                k = ckey(u)
                if ne and k in ne:
                    return False
            if isinstance(u, (int, float)) and not isinstance(u, bool) and kt <= NUM:
                if self.F.truth.get(t) is True and u == 0:
                    return False
                return self.order(t, u) == 0
            if isinstance(u, bool) and kt <= BOOL:
                return self.truth(t) == u
            if u is False or u is True or (isinstance(u, (int, float))):
                if self.F.truth.get(t) is True and not u:
                    return False
            if len(kt) > 1 and not isinstance(u, bool):
                # decide the kind first so that later kind tests are consistent
                want = [x for x in kt if self.compat([x], ku)]
                if not self.has_kind(t, want):
                    return False
                kt = self.kinds(t)
                if isinstance(u, (int, float)) and kt <= NUM:
                    return self.order(t, u) == 0
                if isinstance(u, (int, float)):
                    # bool possible
                    if u not in (0, 1):
                        if self.has_kind(t, ['bool']):
                            return False
                        return self.order(t, u) == 0
                    if self.has_kind(t, ['bool']):
                        return self.truth(t) == bool(u)
                    return self.order(t, u) == 0
            if isinstance(u, bool):
                if 'bool' in kt:
                    if self.has_kind(t, ['bool']):
                        return self.truth(t) == u
                if self.compat(self.kinds(t), ['int']):
                    if self.has_kind(t, NUM):
                        return self.order(t, int(u)) == 0
                return False
            r = self.split([False, True], '%s == %r' % (show(t), u))
            if r:
                self.bind(t, u)
            else:
                self.F.ne.setdefault(t, set()).add(k)
            return r
        # containers
        if isinstance(u, Term):
            if t.fresh and u.fresh:
                return False
            if kt <= NUM and ku <= NUM and not self.F.pair.get(frozenset((t, u))):
                k = self.F.pair.get(frozenset((t, u)))
                if k is None:
                    return self.order(t, u) == 0
            r = self.cat_distinct(t, u)
            if r is not None:
                return r
            key = frozenset((t, u))
            r = self.F.pair.get(key)
            if r is None:
                r = self.split([False, True], '%s == %s' % (show(t), show(u)))
                self.F.pair[key] = r
                if r and kt <= STR and ku <= STR:
                    self.unify(t, u)
            return r
        if isinstance(u, (HList, HDict, tuple)):
            n = len(u.items) if isinstance(u, HList) else len(u.ents) if isinstance(u, HDict) else len(u)
            if n == 0:
                want = [kind_of(u)]
                if not self.has_kind(t, want):
                    return False
                return not self.truth(t)
            if isinstance(u, tuple) and kt <= frozenset(['tuple']):
                return all(self.eq(self.getitem(t, i), x) for i, x in enumerate(u))
        key = (t, id(u))
        r = self.F.pair.get(key)
        if r is None:
            r = self.split([False, True], '%s == %s' % (show(t), show(u)))
            self.F.pair[key] = r
        return r

    def unify(self, t, u):
        """merge two equal string atoms so that later comparisons see one value"""
        if t.op != 'sym' or t.fresh:
            t, u = u, t
        if t.op != 'sym' or t.fresh or self.mentions(u, t):
            return
        F = self.F
        if t in F.ne:
            F.ne.setdefault(u, set()).update(F.ne.pop(t))
        if t in F.truth and u not in F.truth:
            F.truth[u] = F.truth[t]
        if ('len', t) in F.misc and ('len', u) not in F.misc:
            F.misc[('len', u)] = F.misc[('len', t)]
        lt, lu = T('len', t, kinds=INT), T('len', u, kinds=INT)
        if lt in F.rng:
            a, b = F.rng[lt], self.rng_of(lu)
            lo = max([(x[0], x[1]) for x in (a, b) if x[0] is not None], default=(None, False))
            hi = min([(x[2], not x[3]) for x in (a, b) if x[2] is not None], default=(None, True))
            F.rng[lu] = (lo[0], lo[1], hi[0], not hi[1])
        if lt in F.bind and lu not in F.bind:
            F.bind[lu] = F.bind[lt]
        for (x, y, k), r in list(F.ordp.items()):
            if x is lt or y is lt:
                a, b = lu if x is lt else x, lu if y is lt else y
                if ord_key(a) > ord_key(b):
                    F.ordp.setdefault((b, a, -k), -r)
                else:
                    F.ordp.setdefault((a, b, k), r)
        for key, r in list(F.pair.items()):
            if isinstance(key, frozenset) and t in key:
                rest = [x for x in key if x is not t]
                if rest and rest[0] is not u:
                    F.pair.setdefault(frozenset((u, rest[0])), r)
        F.bind[t] = u

    def mentions(self, u, t):
        if u is t:
            return True
        if isinstance(u, Term):
            return any(self.mentions(a, t) for a in u.args)
        if isinstance(u, tuple):
            return any(self.mentions(a, t) for a in u)
        return False

    def maybe_str(self, t, c):
        """can string term t equal the constant c?"""
        if t.fresh:
            return False
        if t.op == 'cat':
            a = t.args
            if isinstance(a[0], str) and not c.startswith(a[0]):
                return False
            if isinstance(a[-1], str) and not c.endswith(a[-1]):
                return False
            if len(c) < sum(len(x) for x in a if isinstance(x, str)):
                return False
            if any(isinstance(x, Term) and x.fresh for x in a):
                return False
        return True

    def maybe_edge(self, s, i, c):
        """can the first (i=0) or last (i=-1) character of s be c?"""
        if len(c) != 1:
            return False
        ps = list(s.args) if isinstance(s, Term) and s.op == 'cat' else [s]
        for p in (reversed(ps) if i else ps):
            if isinstance(p, str):
                if p:
                    return p[i] == c
                continue
            if not self.free_of(p, c):
                return True
            if p.fresh or self.F.truth.get(p) is True or self.F.misc.get(('len', p)):
                return False
        return False

    def cat_distinct(self, t, u):
        """decide equality of string terms by prefix/suffix cancellation, None if unknown"""
        if t.op != 'cat' and u.op != 'cat':
            return None
        a = list(t.args) if t.op == 'cat' else [t]
        b = list(u.args) if u.op == 'cat' else [u]
        for i in (0, -1):
            while a and b:
                x, y = a[i], b[i]
                if x is y:
                    a.pop(i)
                    b.pop(i)
                elif isinstance(x, str) and isinstance(y, str):
                    n = min(len(x), len(y))
                    if (x[:n] != y[:n]) if i == 0 else (x[-n:] != y[-n:]):
                        return False
                    for l, z in ((a, x), (b, y)):
                        l.pop(i)
                        z = z[n:] if i == 0 else z[:-n]
                        if z:
                            l.insert(0 if i == 0 else len(l), z)
                else:
                    break
        if not a and not b:
            return True
        if not a or not b:
            r = a or b
            if any(isinstance(x, str) or x.fresh or self.F.truth.get(x) for x in r):
                return False
        if len(a) == 1 and len(b) == 1:
            return self.eq(a[0], b[0])
        # cut both at a character that occurs in constants only
        for c in sorted(set(ch for x in a + b if isinstance(x, str) for ch in x if not ch.isalnum())):
            if all(isinstance(x, str) or self.free_of(x, c) for x in a + b):
                fa, fb = self.cut(a, c), self.cut(b, c)
                if len(fa) != len(fb):
                    return False
                left = []
                for x, y in zip(fa, fb):
                    if isinstance(x, str) and isinstance(y, str):
                        if x != y:
                            return False
                    elif not self.same(x, y):
                        left.append((x, y))
                if not left:
                    return True
                if len(left) == 1:
                    return self.eq(*left[0])
                for x, y in left:
                    if isinstance(x, Term) and isinstance(y, Term) and self.cat_distinct(x, y) is False:
                        return False
                    if isinstance(x, str) and not self.maybe_str(y, x) or isinstance(y, str) and not self.maybe_str(x, y):
                        return False
                    if getattr(x, 'fresh', False) and getattr(y, 'fresh', False):
                        return False
                    if x in ('', b'') and getattr(y, 'fresh', False) or y in ('', b'') and getattr(x, 'fresh', False):
                        return False
                return None
        return None

    def cut(self, parts, c):
        out = [[]]
        for x in parts:
            if isinstance(x, str):
                f = x.split(c)
                out[-1].append(f[0])
                out.extend([y] for y in f[1:])
            else:
                out[-1].append(x)
        return [self.mk_cat(*x) for x in out]

    def same(self, a, b):
        """definitional equality under the path facts (never splits)"""
        a, b = self.U(self.R(a)), self.U(self.R(b))
        if a is b:
            return True
        if isinstance(a, CONST) and isinstance(b, CONST):
            return type(a) == type(b) and a == b or (
                isinstance(a, (int, float)) and isinstance(b, (int, float)) and
                not isinstance(a, bool) and not isinstance(b, bool) and a == b)
        if isinstance(a, Term) and isinstance(b, Term):
            if self.F.pair.get(frozenset((a, b))):
                return True
            if self.kinds(a) <= NUM and self.kinds(b) <= NUM:
                if self.known_order(a, b) == 0:
                    return True
            if a.op == b.op and len(a.args) == len(b.args):
                return all(self.same(x, y) for x, y in zip(a.args, b.args))
            return False
        if isinstance(a, NT):
            a = a.items
        if isinstance(b, NT):
            b = b.items
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, HSet) and isinstance(b, HSet):
            la = [k for k, _ in a.ents.values()]
            lb = [k for k, _ in b.ents.values()]
            return len(la) == len(lb) and all(any(self.same(x, y) for y in lb) for x in la)
        if isinstance(a, HSet) or isinstance(b, HSet):
            return False
        if isinstance(a, HDict) and isinstance(b, HDict):
            if len(a.ents) != len(b.ents):
                return False
            for k, v in a.ents.values():
                for k2, v2 in b.ents.values():
                    if self.same(k, k2):
                        if not self.same(v, v2):
                            return False
                        break
                else:
                    return False
            return True
        if isinstance(a, HList) and isinstance(b, HList):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        return False

    # ---------------------------------------------------------------- numbers
    def lin(self, v):
        """v as (base, offset): base None for constants"""
        if isinstance(v, Term) and v.op == 'add' and isinstance(v.args[1], (int, float)):
            return v.args[0], v.args[1]
        if isinstance(v, Term):
            if v.op == 'float' and len(v.args) == 1 and self.kinds(v.args[0]) <= NUM:
                # conversion of a number keeps its order relations
                return self.lin(self.R(v.args[0]))
            return v, 0
        return None, v

    def rng_of(self, t):
        r = self.F.rng.get(t)
        if r is None:
            r = (self.minlen(t.args[0]), False, None, False) if t.op == 'len' else (None, False, None, False)
            if t.op == 'plus':
                a, b = [self.rng_of(self.lin(x)[0]) if isinstance(x, Term) else (x, False, x, False) for x in t.args]
                if a[0] is not None and b[0] is not None and self.kinds(t) <= INT:
                    r = (a[0] + b[0], a[1] or b[1], None, False)
        return r

    def minlen(self, v):
        if isinstance(v, (str, bytes)):
            return len(v)
        if isinstance(v, Term):
            if v.op in ('cat', 'bcat'):
                return sum(self.minlen(a) for a in v.args)
            if v.op == 'encode':
                return self.minlen(v.args[0])
            if v.fresh or self.F.truth.get(v):
                return 1
        return 0

    def order_possible(self, t, c, want):
        """can order(t, const) be want?"""
        t, off = self.lin(t)
        c = c - off
        lo, lop, hi, hop = self.rng_of(t)
        if want == 0:
            if ('int', c) in self.F.ne.get(t, ()):
                return False
            if lo is not None and (c < lo or (c == lo and lop)):
                return False
            if hi is not None and (c > hi or (c == hi and hop)):
                return False
            return True
        integer = self.kinds(t) <= frozenset(['int', 'bool'])
        if want < 0:   # t < c
            if lo is None:
                return True
            if integer:
                l = lo + 1 if lop else lo
                return l < c
            return lo < c
        if hi is None:
            return True
        if integer:
            h = hi - 1 if hop else hi
            return h > c
        return hi > c

    def known_order(self, a, b):
        a, b = self.R(a), self.R(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return (a > b) - (a < b)
        (ta, ca), (tb, cb) = self.lin(a), self.lin(b)
        if ta is tb and ta is not None:
            return (ca > cb) - (ca < cb)
        if ta is None or tb is None:
            t, c, s = (tb, ca - cb, -1) if ta is None else (ta, cb - ca, 1)
            p = [w for w in (-1, 0, 1) if self.order_possible(t, c, w)]
            return p[0] * s if len(p) == 1 else None
        k = cb - ca
        if ta.n > tb.n:
            ta, tb, k, s = tb, ta, -k, -1
        else:
            s = 1
        r = self.F.ordp.get((ta, tb, k))
        return None if r is None else r * s

    def order(self, a, b):
        """sign of a - b: -1, 0, 1 (case split when unknown)"""
        a, b = self.R(a), self.R(b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if not isinstance(a, Term) and not isinstance(b, Term):
            if isinstance(a, tuple) and isinstance(b, tuple):
                for x, y in zip(a, b):
                    o = self.order(x, y)
                    if o:
                        return o
                return (len(a) > len(b)) - (len(a) < len(b))
            try:
                return (a > b) - (a < b)
            except TypeError:
                raise self.exc('TypeError', 'unorderable')
        for x in (a, b):
            if 'none' in self.kinds(x):
                if self.has_kind(x, ['none']):
                    raise self.exc('TypeError', "'<' not supported between None and number")
        a, b = self.R(a), self.R(b)
        num = self.kinds(a) <= NUMERIC and self.kinds(b) <= NUMERIC
        (ta, ca), (tb, cb) = self.lin(a), self.lin(b)
        if num and ta is tb and ta is not None:
            return (ca > cb) - (ca < cb)
        if num and (ta is None or tb is None):
            t, c, s = (tb, ca - cb, -1) if ta is None else (ta, cb - ca, 1)
            opts = [w for w in (-1, 0, 1) if self.order_possible(t, c, w)]
            if self.F.ordp:
                opts = self.ord_feasible(t, None, c, opts)
            if not opts:
                raise Infeasible()
            w = self.split(opts, 'order(%s, %r)' % (show(t), c))
            lo, lop, hi, hop = self.rng_of(t)
            if w == 0:
                if t.op == 'len':
                    self.F.misc[('len', t.args[0])] = c
                self.bind(t, c)
            elif w < 0:
                if hi is None or c <= hi:
                    self.F.rng[t] = (lo, lop, c, True)
            else:
                if lo is None or c >= lo:
                    self.F.rng[t] = (c, True, hi, hop)
            return w * s
        k = cb - ca if num else 0
        if num:
            x, y = ta, tb
        else:
            x, y = a, b
        if ord_key(x) > ord_key(y):
            x, y, k, s = y, x, -k, -1
        else:
            s = 1
        r = self.F.ordp.get((x, y, k))
        if r is None:
            opts = [-1, 0, 1]
            if num:
                opts = self.ord_feasible(x, y, k, opts)
            if self.F.pair.get(frozenset((x, y))) is True and k == 0:
                opts = [0]
            if not opts:
                raise Infeasible()
            r = self.split(opts, 'order(%s, %s)' % (show(x), show(y)))
            self.F.ordp[(x, y, k)] = r
            if r == 0 and k == 0:
                self.F.pair[frozenset((x, y))] = True
            elif k == 0:
                self.F.pair[frozenset((x, y))] = False
        return r * s

    def ord_edges(self):
        """difference constraints x - y <= c (strict) recorded on the partition"""
        es = []

        def isint(t):
            return t is None or self.F.kinds.get(t, t.kinds) <= INT

        def le(x, y, c, strict):
            if strict and isinstance(c, int) and isint(x) and isint(y):
                c, strict = c - 1, False
            es.append((x, y, c, strict))
        nodes = set()
        for (x, y, k), r in self.F.ordp.items():
            if not isinstance(x, Term) or not isinstance(y, Term):
                continue
            nodes.add(x)
            nodes.add(y)
            if r <= 0:
                le(x, y, k, r < 0)
            if r >= 0:
                le(y, x, -k, r > 0)
        for t, (lo, lop, hi, hop) in self.F.rng.items():
            if lo is not None:
                le(None, t, -lo, lop)
            if hi is not None:
                le(t, None, hi, hop)
        for t in nodes:
            v = self.F.bind.get(t)
            if t.op == 'len' and ('len', t.args[0]) in self.F.misc:
                v = self.F.misc[('len', t.args[0])]
            if isinstance(v, (int, float)):
                le(t, None, v, False)
                le(None, t, -v, False)
            elif t.op == 'len':
                le(None, t, 0, False)
        return es, le

    def consistent(self):
        """congruence check over the recorded facts: false when the partition is contradictory"""
        F = self.F

        def interval(t):
            v = F.bind.get(t)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return (v, False, v, False)
            return F.rng.get(t)

        def clash(x, y):
            (lo, lop, hi, hop), (l2, lp2, h2, hp2) = x, y
            for l, lp, h, hp in ((lo, lop, h2, hp2), (l2, lp2, hi, hop)):
                if l is not None and h is not None and (l > h or l == h and (lp or hp)):
                    return True
            return False
        terms = set(F.rng) | set(F.bind) | set(F.truth)
        for t in list(terms):
            if t.op == 'sym' or not t.args:
                continue
            na = [self.renorm(a) if isinstance(a, Term) else a for a in t.args]
            if all(x is y for x, y in zip(na, t.args)):
                continue
            f = self.CONS.get(t.op)
            try:
                r = f(self, *na) if f else T(t.op, *na, kinds=t.kinds)
            except Raised:
                continue
            if r is t:
                continue
            if isinstance(r, Term):
                x, y = interval(t), interval(r)
                if x and y and clash(x, y):
                    return False
                bx, by = F.bind.get(t, self), F.bind.get(r, self)
                if bx is not self and by is not self and is_const(bx) and is_const(by) and bx != by:
                    return False
                if bx is not self and is_const(bx) and ckey(bx) in F.ne.get(r, ()):
                    return False
                if by is not self and is_const(by) and ckey(by) in F.ne.get(t, ()):
                    return False
                a, b = F.truth.get(t), F.truth.get(r)
                if a is not None and b is not None and a != b:
                    return False
            elif is_const(r):
                x = interval(t)
                if x and isinstance(r, (int, float)) and clash(x, (r, False, r, False)):
                    return False
                if ckey(r) in F.ne.get(t, ()):
                    return False
        return True

    def ord_feasible(self, x, y, k, opts):
        out = []
        for o in opts:
            es, le = self.ord_edges()
            if o <= 0:
                le(x, y, k, o < 0)
            if o >= 0:
                le(y, x, -k, o > 0)
            d = {}
            for a, b, c, st in es:
                d[a] = d[b] = (0, 0)
            ok = True
            for i in range(len(d) + 1):
                ch = False
                for a, b, c, st in es:
                    # a <= b + c
                    n = (d[b][0] + c, d[b][1] - (1 if st else 0))
                    if n < d[a]:
                        d[a] = n
                        ch = True
                if not ch:
                    break
            else:
                ok = False
            if ok:
                out.append(o)
        return out

    def mk_add(self, a, b):
        a, b = self.R(a), self.R(b)
        if not isinstance(a, Term) and not isinstance(b, Term):
            return a + b
        (ta, ca), (tb, cb) = self.lin(a), self.lin(b)
        c = ca + cb
        if ta is None:
            ta, tb = tb, None
        if tb is None:
            return ta if c == 0 else T('add', ta, c, kinds=self.numk(ta, c))
        if self.kinds(ta) <= INT and self.kinds(tb) <= INT and (ta.op == 'plus' or tb.op == 'plus' or 'neg' in (ta.op, tb.op)):
            # integer sums have one form: summands in order, opposites cancelled
            cnt, k = {}, [c]

            def collect(x, sg):
                x = self.R(x)
                if not isinstance(x, Term):
                    k[0] += sg * x
                elif x.op == 'plus':
                    collect(x.args[0], sg)
                    collect(x.args[1], sg)
                elif x.op == 'add':
                    collect(x.args[0], sg)
                    k[0] += sg * x.args[1]
                elif x.op == 'neg':
                    collect(x.args[0], -sg)
                else:
                    cnt[x] = cnt.get(x, 0) + sg
            collect(ta, 1)
            collect(tb, 1)
            out = None
            for x, m in sorted(cnt.items(), key=lambda e: e[0].n):
                y = x if m > 0 else T('neg', x, kinds=INT)
                for _ in range(abs(m)):
                    out = y if out is None else T('plus', out, y, kinds=INT)
            if out is None:
                return k[0]
            return out if k[0] == 0 else T('add', out, k[0], kinds=INT)
        if ta.n > tb.n:
            ta, tb = tb, ta
        if ta.op == 'neg' and ta.args[0] is tb or tb.op == 'neg' and tb.args[0] is ta:
            return c
        t = T('plus', ta, tb, kinds=self.numk(ta, tb))
        return t if c == 0 else T('add', t, c, kinds=t.kinds)

    def numk(self, a, b):
        ka, kb = self.kinds(a), self.kinds(b)
        if ka <= frozenset(['int', 'bool']) and kb <= frozenset(['int', 'bool']):
            return INT
        if ka <= NUMERIC and kb <= NUMERIC:
            return NUM
        return ALLK

    def mk_neg(self, a):
        a = self.R(a)
        if not isinstance(a, Term):
            return -a
        if a.op == 'neg':
            return a.args[0]
        t, c = self.lin(a)
        if t.op == 'plus' and self.kinds(t) <= INT:
            return self.mk_add(self.mk_add(self.mk_neg(t.args[0]), self.mk_neg(t.args[1])), -c)
        n = T('neg', t, kinds=self.kinds(t))
        return n if c == 0 else T('add', n, -c, kinds=n.kinds)

    # ---------------------------------------------------------------- strings
    def mk_cat(self, *parts):
        out = []
        for p in parts:
            p = self.R(p)
            if isinstance(p, Term) and p.op == 'cat':
                q = list(p.args)
            else:
                q = [p]
            for x in q:
                x = self.R(x)
                if x == '' and isinstance(x, str):
                    continue
                if out and isinstance(x, str) and isinstance(out[-1], str):
                    out[-1] = out[-1] + x
                else:
                    out.append(x)
        if not out:
            return ''
        if len(out) == 1:
            return out[0]
        return T('cat', *out, kinds=STR)

    def mk_bcat(self, *parts):
        out = []
        for p in parts:
            p = self.R(p)
            q = list(p.args) if isinstance(p, Term) and p.op == 'bcat' else [p]
            for x in q:
                x = self.R(x)
                if x == b'' and isinstance(x, bytes):
                    continue
                if out and isinstance(x, bytes) and isinstance(out[-1], bytes):
                    out[-1] = out[-1] + x
                else:
                    out.append(x)
        if not out:
            return b''
        if len(out) == 1:
            return out[0]
        return T('bcat', *out, kinds=BYTES)

    def mk_encode(self, s, enc):
        s = self.R(s)
        if isinstance(s, str):
            if isinstance(enc, str):
                return s.encode(enc)
            if all(ord(c) < 128 for c in s):
                return s.encode('ascii')
            return T('encode', s, enc, kinds=BYTES)
        if s.op == 'cat':
            return self.mk_bcat(*[self.mk_encode(a, enc) for a in s.args])
        if s.ascii:
            return T('encode', s, 'ascii', kinds=BYTES)
        if isinstance(enc, str):
            enc = {'utf8': 'utf-8', 'utf_8': 'utf-8', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1'}.get(enc.lower(), enc.lower())
        return T('encode', s, enc, kinds=BYTES)

    def mk_decode(self, b, enc):
        b = self.R(b)
        if isinstance(b, bytes):
            try:
                return b.decode(enc)
            except UnicodeDecodeError as e:
                raise self.exc('UnicodeDecodeError', str(e))
        if b.op == 'bcat':
            return self.mk_cat(*[self.mk_decode(a, enc) for a in b.args])
        if b.op == 'encode' and (b.args[1] == enc or b.args[1] == 'ascii'):
            return b.args[0]
        return T('decode', b, enc, kinds=STR)

    def cells(self, s):
        """the characters of a text that consists of constants and single unknown digits or letters, else None"""
        if isinstance(s, str):
            return list(s)
        if not isinstance(s, Term) or s.op not in ('cat', 'digit', 'junk'):
            return None
        out = []
        for x in (s.args if s.op == 'cat' else (s,)):
            x = self.R(x)
            if isinstance(x, str):
                out.extend(x)
            elif isinstance(x, Term) and x.op in ('digit', 'junk'):
                out.append(x)
            else:
                return None
        return out

    def cell_differs(self, x, y):
        """two characters that cannot be equal"""
        if isinstance(x, Term):
            x, y = y, x
        if isinstance(x, Term):
            return x.op != y.op
        if isinstance(y, Term):
            return not x.isdigit() if y.op == 'digit' else x in y.nochars
        return x != y

    def free_of(self, s, c):
        """is the one-character string c known not to occur in s?"""
        if isinstance(s, str):
            return c not in s
        if not isinstance(s, Term):
            return False
        if s.op == 'sym':
            return c in s.nochars
        if s.op == 'digit':
            return not ('0' <= c <= '9')
        if s.op == 'cat':
            return all(self.free_of(a, c) for a in s.args)
        if s.op == 'replace':
            src, old, new = s.args
            if old == c and isinstance(new, str) and c not in new:
                return True
            return self.free_of(src, c) and isinstance(new, str) and c not in new
        if s.op in ('quote', 'quote_plus'):
            if c == '%' or c in '0123456789ABCDEF' or c == '+' and s.op == 'quote_plus':
                return False
            if c.isalnum() or c in '_.-~' or c in (s.args[1] if len(s.args) > 1 else '/' if s.op == 'quote' else ''):
                return self.free_of(s.args[0], c)
            return True
        if s.op in ('str',):
            return self.kinds(s.args[0]) <= INT
        if s.op == 'lower':
            return not c.isalpha() and self.free_of(s.args[0], c) or c.isupper() and c.isascii()
        return c in s.nochars

    def mk_replace(self, s, old, new):
        s, old, new = self.R(s), self.R(old), self.R(new)
        if isinstance(s, str) and isinstance(old, str) and isinstance(new, str):
            return s.replace(old, new)
        if isinstance(s, Term) and s.op == 'cat' and isinstance(old, str) and len(old) == 1:
            return self.mk_cat(*[self.mk_replace(a, old, new) for a in s.args])
        if isinstance(old, str) and old and any(self.free_of(s, c) for c in old):
            return s
        if isinstance(s, Term) and s.op == 'cat' and isinstance(old, str) and len(old) > 1:
            # no occurrence starts inside an abstract part or runs from a constant into the next part
            last = s.args[-1]
            if all(not any(a.endswith(old[:i]) for i in range(1, len(old))) or a is last if isinstance(a, str) else self.free_of(a, old[0])
                   for a in s.args):
                return self.mk_cat(*[a.replace(old, new) if isinstance(a, str) and isinstance(new, str) else
                                     self.mk_replace(a, old, new) if isinstance(a, str) else a for a in s.args])
        if isinstance(s, Term) and s.op == 'replace':
            # inverse of an escaping step:  x.replace(c, e).replace(e, c) == x  when no
            # occurrence of e pre-exists, which holds when the head of e has been escaped
            src, o2, n2 = s.args
            if o2 == new and n2 == old and isinstance(old, str) and len(o2) == 1:
                if self.escape_safe(src, n2) or o2 == n2[0] and len(n2) > 1:
                    return src
        return T('replace', s, old, new, kinds=STR)

    def escape_safe(self, src, seq):
        """no occurrence of two-character seq in src: each seq[0] in src is followed by
        another character because src escapes seq[0]"""
        if any(self.free_of(src, c) for c in seq):
            return True
        if isinstance(src, Term) and src.op == 'replace':
            _, o, n = src.args
            if len(seq) == 2 and o == seq[0] and isinstance(n, str) and len(n) == 2 and n[0] == seq[0] and n[1] != seq[1]:
                return True
        return False

    def mk_strip(self, op, s, chars=None):
        s = self.R(s)
        if isinstance(s, str):
            return getattr(s, op)(*([] if chars is None else [chars]))
        if s.op in ('strip', 'lower', 'upper') and op == 'strip':
            if s.op == 'strip' and s.args[1] is chars:
                return s
        if chars is None or isinstance(chars, str):
            cs = ' \t\r\n' if chars is None else chars
            if all(self.free_of(s, c) for c in cs):
                return s
            if s.op == 'cat':
                parts = list(s.args)
                ok = True
                for side in ([0] if op != 'rstrip' else []) + ([-1] if op != 'lstrip' else []):
                    while parts:
                        a = parts[side]
                        if isinstance(a, str):
                            a = (a.lstrip if side == 0 else a.rstrip)(*([] if chars is None else [chars]))
                            if a:
                                parts[side] = a
                                break
                            parts.pop(side)
                        elif a.fresh and all(self.free_of(a, c) for c in cs):
                            break
                        else:
                            ok = False
                            break
                if ok:
                    return self.mk_cat(*parts)
        return T(op, s, chars, kinds=STR)

    def mk_lower(self, s):
        s = self.R(s)
        if isinstance(s, str):
            return s.lower()
        if s.op == 'cat':
            return self.mk_cat(*[self.mk_lower(a) for a in s.args])
        if s.op == 'lower':
            return s
        if s.op == 'upper' and s.args[0].op == 'sym' and s.args[0].ascii:
            return self.mk_lower(s.args[0])
        if s.op == 'sym' and len(s.nochars) > 25 and set('ABCDEFGHIJKLMNOPQRSTUVWXYZ') <= set(s.nochars):
            return s
        if s.op in ('strip', 'lstrip', 'rstrip') and s.args[1] is None:
            # case mapping commutes with whitespace stripping
            return self.mk_strip(s.op, self.mk_lower(s.args[0]))
        if s.op == 'item' and isinstance(s.args[0], Term) and s.args[0].op == 'split':
            sp = s.args[0]
            sep = sp.args[1]
            if isinstance(sep, str) and sep.lower() == sep.upper():
                return self.split_item(self.mk_lower(sp.args[0]), sep, sp.args[2], s.args[1])
        return T('lower', s, kinds=STR)

    def split_item(self, s, sep, maxsplit, i):
        if i == 0:
            maxsplit = 1
        return T('item', T('split', s, sep, maxsplit, kinds=LIST), i, kinds=STR)

    def mk_upper(self, s):
        s = self.R(s)
        if isinstance(s, str):
            return s.upper()
        if s.op == 'cat':
            return self.mk_cat(*[self.mk_upper(a) for a in s.args])
        if s.op == 'upper':
            return s
        if s.op == 'lower' and s.args[0].op == 'sym' and s.args[0].ascii:
            return self.mk_upper(s.args[0])
        return T('upper', s, kinds=STR)

    def do_split(self, s, sep, maxsplit=-1):
        """str.split with separator: a python list of pieces, or None when opaque"""
        if isinstance(s, str) and isinstance(sep, str):
            return s.split(sep, maxsplit)
        if not isinstance(sep, str):
            if isinstance(sep, Term) and isinstance(s, Term) and s.op == 'cat' and maxsplit == -1 and sep.fresh:
                # separator is a generic token: occurrences are exactly the syntactic ones
                pieces, cur = [], []
                for a in s.args:
                    if a is sep:
                        pieces.append(self.mk_cat(*cur))
                        cur = []
                    else:
                        cur.append(a)
                pieces.append(self.mk_cat(*cur))
                return pieces
            if isinstance(sep, Term) and sep.fresh and isinstance(s, (str,)):
                return [s]
            if isinstance(sep, Term) and sep.fresh and isinstance(s, Term) and s.fresh:
                return [s]
            return None
        if len(sep) == 1 and maxsplit == -1:
            parts = list(s.args) if isinstance(s, Term) and s.op == 'cat' else [s]
            pieces, cur = [], []
            for a in parts:
                if isinstance(a, str):
                    xs = a.split(sep)
                    cur.append(xs[0])
                    for x in xs[1:]:
                        pieces.append(self.mk_cat(*cur))
                        cur = [x]
                elif self.free_of(a, sep):
                    cur.append(a)
                else:
                    return None
            pieces.append(self.mk_cat(*cur))
            return pieces
        if len(sep) > 1 and maxsplit == -1 and isinstance(s, Term):
            parts = list(s.args) if s.op == 'cat' else [s]
            if all(isinstance(a, str) or a.fresh for a in parts):
                pieces, cur = [], []
                for a in parts:
                    if isinstance(a, str):
                        xs = a.split(sep)
                        cur.append(xs[0])
                        for x in xs[1:]:
                            pieces.append(self.mk_cat(*cur))
                            cur = [x]
                    else:
                        cur.append(a)
                pieces.append(self.mk_cat(*cur))
                return pieces
        return None

    def mk_str(self, v):
        v = self.R(v)
        if isinstance(v, CONST):
            return str(v)
        if isinstance(v, Term):
            if self.kinds(v) == STR:
                return v
            if 'str' in self.kinds(v) and v.op in ('sym', 'item', 'getitem', 'attr') and self.split_str:
                if self.has_kind(v, ['str']):
                    return v
                return self.mk_str(v)
            return T('str', v, kinds=STR)
        v = self.U(v)
        if isinstance(v, Obj):
            c = self.cls_of(v)
            m = self.mro_get(c, '__str__')
            if isinstance(m, Fn):
                return self.call(m, [v], {})
            if self.is_exc(c):
                a = v.attrs.get('args', ())
                return self.mk_str(a[0]) if len(a) == 1 else '' if not a else T('str', a, kinds=STR)
            if isinstance(v, Cls):
                return "<class '%s'>" % v.name
            m = self.mro_get(c, '__repr__')
            if isinstance(m, Fn):
                return self.call(m, [v], {})
        return T('str', v, kinds=STR)

    def mk_format(self, f, args, kw):
        f = self.R(f)
        parts = []
        f0 = f
        if not isinstance(f, str):
            # abstract pieces that contain no markup stand for themselves
            src = f.args if isinstance(f, Term) and f.op == 'cat' else (f,)
            if not all(isinstance(a, str) or all(self.free_of(a, c) for c in '{}') for a in src):
                return T('format', f, tuple(args), tuple(sorted(((k, v) for k, v in kw.items()), key=str)), kinds=STR)
            enc = []
            for a in src:
                if isinstance(a, str):
                    enc.append(a)
                else:
                    enc.append(chr(0xE000 + len(parts)))
                    parts.append(a)
            f = ''.join(enc)

        def dec(x):
            if not parts:
                return x
            return self.mk_cat(*[parts[ord(c) - 0xE000] if 0xE000 <= ord(c) < 0xE000 + len(parts) else c for c in x])
        out = []
        auto = 0
        try:
            pieces = list(_fmt.parse(f))
        except ValueError:
            raise self.exc('ValueError', 'bad format')
        for lit, field, spec, conv in pieces:
            out.append(dec(lit))
            if field is None:
                continue
            import re as _re
            if parts and any(0xE000 <= ord(c) < 0xE000 + len(parts) and not all(self.free_of(parts[ord(c) - 0xE000], d) for d in '.[!:') for c in field):
                return T('format', f0, tuple(args), tuple(sorted(((k, v) for k, v in kw.items()), key=str)), kinds=STR)
            m = _re.match(r'^([^.\[]*)((?:\.\w+|\[[^\]]+\])*)$', field)
            name, rest = m.group(1), m.group(2)
            if name == '':
                name = auto
                auto += 1
            elif name.isdigit():
                name = int(name)
            if isinstance(name, int):
                if name >= len(args):
                    raise self.exc('IndexError', 'format index')
                v = args[name]
            else:
                name = dec(name)
                if name in kw:
                    v = kw[name]
                else:
                    for k in kw:
                        if not (isinstance(k, str) and isinstance(name, str)) and self.eq(k, name):
                            v = kw[k]
                            break
                    else:
                        raise self.exc('KeyError', name)
            for a, b in _re.findall(r'\.(\w+)|\[([^\]]+)\]', rest):
                if a:
                    v = self.getattr_(v, a)
                else:
                    v = self.getitem(v, int(b) if b.isdigit() else b)
            if conv == 'r':
                out.append(T('repr', self.R(v), kinds=STR) if not is_const(v) else repr(v))
            elif spec:
                v = self.R(v)
                out.append(format(v, spec) if is_const(v) else T('fmt', v, spec, kinds=STR))
            else:
                out.append(self.mk_str(v))
        return self.mk_cat(*out)

    def mk_percent(self, f, v):
        if not isinstance(f, str):
            return T('percent', f, v, kinds=STR)
        import re as _re
        out = []
        args = list(v) if isinstance(v, tuple) else [v]
        pos = 0
        i = 0
        for m in _re.finditer(r'%(\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([sdrifxc%])', f):
            out.append(f[pos:m.start()])
            pos = m.end()
            if m.group(4) == '%':
                out.append('%')
                continue
            if m.group(2):
                a = self.getitem(v, m.group(2))
            else:
                if i >= len(args):
                    raise self.exc('TypeError', 'not enough arguments for format string')
                a = args[i]
                i += 1
            if m.group(4) in 'sd' and not m.group(3):
                out.append(self.mk_str(a))
            elif is_const(self.R(a)):
                out.append(('%' + m.group(3) + m.group(4)) % self.R(a))
            else:
                out.append(T('fmt', self.R(a), m.group(3) + m.group(4), kinds=STR))
        out.append(f[pos:])
        if i < len(args) and not isinstance(v, HDict):
            raise self.exc('TypeError', 'not all arguments converted')
        return self.mk_cat(*out)

    # ---------------------------------------------------------------- length
    def mk_len(self, v):
        v = self.R(v)
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        v = self.U(v)
        if isinstance(v, HList):
            return len(v.items)
        if isinstance(v, NT):
            return len(v.items)
        if isinstance(v, HDict):
            m = self.mro_get(self.cls_of(v), '__len__')
            if isinstance(m, Fn):
                return self.call(m, [v], {})
            return len(v.ents)
        if isinstance(v, View):
            return len(v.d.ents)
        if isinstance(v, Term):
            ks = self.kinds(v)
            if not ks & SIZED and not ks & OBJ:
                raise self.exc('TypeError', 'object has no len()')
            if ks - SIZED and self.has_kind(v, ks - SIZED - OBJ):
                raise self.exc('TypeError', 'object has no len()')
            n = self.F.misc.get(('len', v))
            if n is not None:
                return n
            if v.op in ('digit', 'junk'):
                return 1
            if v.op == 'cat':
                return self.len_parts(v.args)
            if v.op == 'item' and isinstance(v.args[0], Term) and self.kinds(v.args[0]) <= STR and self.kinds(v) <= STR:
                return 1    # a character of a text
            t = T('len', v, kinds=INT)
            if self.F.truth.get(v) is True or (v.op == 'cat' and self.len_truth(v, STR)):
                lo, lop, hi, hop = self.rng_of(t)
                if lo is None or lo < 1:
                    self.F.rng[t] = (1, False, hi, hop)
            return self.R(t)
        if isinstance(v, Obj):
            m = self.mro_get(self.cls_of(v), '__len__')
            if m is not None:
                return self.call(m, [v], {})
        raise self.exc('TypeError', 'object of type %s has no len()' % show(v))


def _cat(I, *a):
    return I.mk_cat(*a)


CONS = {
    'cat': _cat,
    'bcat': lambda I, *a: I.mk_bcat(*a),
    'replace': lambda I, s, o, n: I.mk_replace(s, o, n),
    'encode': lambda I, s, e: I.mk_encode(s, e),
    'decode': lambda I, s, e: I.mk_decode(s, e),
    'lower': lambda I, s: I.mk_lower(s),
    'upper': lambda I, s: I.mk_upper(s),
    'strip': lambda I, s, c: I.mk_strip('strip', s, c),
    'str': lambda I, s: I.mk_str(s),
    'add': lambda I, a, b: I.mk_add(a, b),
    'plus': lambda I, a, b: I.mk_add(a, b),
    'neg': lambda I, a: I.mk_neg(a),
    'len': lambda I, a: I.mk_len(a),
    'not': lambda I, a: (not I.truth(a)) if not isinstance(a, Term) else T('not', a, kinds=BOOL),
    'format': lambda I, f, a, k: I.mk_format(f, list(a), dict(k)) if isinstance(f, str) else T('format', f, a, k, kinds=STR),
}
Sem.CONS = CONS
Sem.split_str = False
