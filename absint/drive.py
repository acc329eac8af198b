"""Partition driver: explores every trace partition of a scenario and evaluates contracts."""
import os
import sys
import time

from .values import *
from .facts import Facts, Chooser
from .interp import Interp, MISSING, Mangler, Env, Frame
from . import lib


STRICT = bool(os.environ.get('ABSINT_STRICT'))


class Fail(Exception):
    def __init__(self, rule, msg, site=None):
        Exception.__init__(self, msg)
        self.rule, self.msg, self.site = rule, msg, site


class Skip(Exception):
    """the partition is outside the scenario's precondition"""


class Inconclusive(Exception):
    pass


class AnchorMissing(Exception):
    pass


class Outcome(object):
    def __init__(self, value=None, exc=None, raised=None):
        self.value, self.exc, self.raised = value, exc, raised

    @property
    def ok(self):
        return self.exc is None

    @property
    def ename(self):
        return self.exc.cls.name if self.exc is not None else None

    @property
    def site(self):
        return self.raised.site if self.raised is not None else None

    def is_exc(self, *names):
        return self.exc is not None and any(c.name in names for c in self.exc.cls.mro)

    def __repr__(self):
        return 'returned %s' % show(self.value) if self.ok else 'raised %s at %s' % (show(self.exc), self.site)


class S(object):
    """what a scenario sees: abstract inputs, calls, and contract assertions"""

    def __init__(self, I, run, name):
        self.I, self.run, self.name = I, run, name
        self.ob = 0

    # inputs -----------------------------------------------------------
    def sym(self, name, *kinds, **kw):
        """an arbitrary value of the given kinds"""
        ks = frozenset(kinds) if kinds else ALLK
        return self._sym(name, ks, False, kw.get('nochars', ''), kw.get('ascii', False), kw.get('note'))

    def _sym(self, name, ks, fresh, nochars, ascii, note):
        t = T('sym', name, ','.join(sorted(ks)), fresh, nochars, ascii, note, kinds=ks)
        t.fresh, t.nochars, t.ascii, t.note = fresh, nochars, ascii, note
        return t

    def token(self, name, nochars='', ascii=False):
        """a generic non-empty string: different from every constant and every other token"""
        return self._sym(name, STR, True, nochars, ascii, None)

    def digits(self, name, n):
        """n unknown digits"""
        return self.I.mk_cat(*[T('digit', '%s%d' % (name, i), kinds=STR, ascii=True) for i in range(n)])

    def junk(self, name, nochars=''):
        """an unknown character that is none of these and no digit"""
        return T('junk', name, nochars, kinds=STR, nochars='0123456789' + nochars)

    def opaque(self, name, **kw):
        """an arbitrary identity (object of unknown class)"""
        return self._sym(name, OBJ, False, '', False, 'opaque')

    def dict(self, *pairs, **kw):
        return self.I.new_dict(list(pairs) + list(kw.items()))

    def list(self, *items):
        return self.I.new_list(items)

    def obj(self, v):
        """python literal structure -> abstract heap"""
        if isinstance(v, dict):
            return self.I.new_dict([(k, self.obj(x)) for k, x in v.items()])
        if isinstance(v, list):
            return self.I.new_list([self.obj(x) for x in v])
        if isinstance(v, (set, frozenset)):
            return self.I.new_set([self.obj(x) for x in sorted(v, key=repr)])
        if isinstance(v, tuple):
            return tuple(self.obj(x) for x in v)
        return v

    def fn(self, name, f):
        """a native callback"""
        return Builtin(name, f)

    # repository names -----------------------------------------------------
    def get(self, path):
        """'pyswagger.core:App.load' -> abstract value; the public anchors of the rules"""
        mod, _, q = path.partition(':')
        try:
            m = self.I.import_module(mod)
        except Raised as e:
            raise Fail('import', 'module %s cannot be imported: %s (%s)' % (mod, show(e.obj), e.site), e.site)
        if m is None:
            raise AnchorMissing(path)
        v = m
        for p in q.split('.') if q else ():
            try:
                v = self.I.getattr_(v, p)
            except Raised:
                raise AnchorMissing(path)
        return v

    def client(self, src, **names):
        """an abstract module: this client program, analysed together with the library (names: values it can use)"""
        import ast
        import textwrap
        m = Mod('client', '<client of %s>' % self.name)
        m.is_pkg = False
        m.ns['__name__'] = 'client'
        m.ns.update(names)
        tree = Mangler().visit(ast.parse(textwrap.dedent(src)))
        env = Env('mod', None, m)
        env.vars = m.ns
        self.I.stack.append(Frame(None, m, env))
        try:
            self.I.block(tree.body, env)
            return Outcome(m)
        except Raised as e:
            return Outcome(None, e.obj, e)
        finally:
            self.I.stack.pop()

    # execution -----------------------------------------------------------
    def call(self, f, /, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
        try:
            return Outcome(self.I.call(f, list(args), kw))
        except Raised as e:
            return Outcome(None, e.obj, e)

    def I_call(self, f, kw):
        """call with keyword arguments only (their names may be abstract)"""
        try:
            return Outcome(self.I.call(f, [], dict(kw)))
        except Raised as e:
            return Outcome(None, e.obj, e)

    def must(self, f, /, *args, **kw):
        """a call that has to succeed"""
        o = self.call(f, *args, **kw)
        if not o.ok:
            raise Fail(self.name, 'unexpected %r' % (o,), o.site)
        return o.value

    def attr(self, o, name, default=MISSING):
        try:
            return self.I.R(self.I.getattr_(o, name, default))
        except Raised as e:
            raise Fail(self.name, 'reading %s of %s raised %s' % (name, show(o), show(e.obj)), e.site)

    def meth(self, o, name, /, *args, **kw):
        try:
            f = self.I.getattr_(o, name)
        except Raised as e:
            raise Fail(self.name, 'reading %s of %s raised %s' % (name, show(o), show(e.obj)), e.site)
        return self.call(f, *args, **kw)

    def item(self, o, k):
        try:
            return self.I.getitem(o, k)
        except Raised as e:
            raise Fail(self.name, 'item %s of %s raised %s' % (show(k), show(o), show(e.obj)), e.site)

    def items(self, o):
        return list(self.I.iterate(o))

    def events(self, *names):
        return [e for e in self.I.events if not names or e.name in names]

    # facts ------------------------------------------------------------------
    def truth(self, v):
        return self.I.truth(v)

    def R(self, v):
        return self.I.R(v)

    def same(self, a, b):
        return self.I.same(a, b)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def choice(self, label, *options):
        return self.I.split(list(options), label)

    def lt(self, a, b):
        return self.I.order(a, b) < 0

    def gt(self, a, b):
        return self.I.order(a, b) > 0

    def eq(self, a, b):
        return self.I.eq(a, b)

    def cat(self, *a):
        return self.I.mk_cat(*a)

    def builtin(self, name, *args, **kw):
        return self.I.call(self.I.BUILTINS[name], list(args), kw)

    def binop(self, op, a, b):
        return self.I.binop(op, a, b)

    def len(self, v):
        return self.I.mk_len(v)

    # contracts ---------------------------------------------------------------
    def check(self, cond, rule, msg, site=None):
        self.ob += 1
        self.run.obligation(self.name, rule)
        if not cond:
            raise Fail(rule, msg() if callable(msg) else msg, site)

    def same_ob(self, a, b, rule, what, site=None):
        """contract: abstract value a equals the specified value b"""
        self.ob += 1
        self.run.obligation(self.name, rule)
        if self.I.same(a, b):
            return
        if not self.conclusive(a):
            raise Inconclusive('%s: %s not comparable with %s' % (what, show(a), show(b)))
        raise Fail(rule, '%s is %s, specified %s' % (what, show(self.I.R(a)), show(self.I.R(b))), site)

    VOCAB = None

    def conclusive(self, v, depth=0):
        """all operators in v are in the comparison vocabulary"""
        v = self.I.U(self.I.R(v))
        if depth > 6:
            return True
        if isinstance(v, Term):
            if v.op in self.run.opaque_ops:
                return False
            return all(self.conclusive(a, depth + 1) for a in v.args)
        if isinstance(v, tuple):
            return all(self.conclusive(a, depth + 1) for a in v)
        if isinstance(v, HSet):
            return True
        if isinstance(v, HDict):
            return all(self.conclusive(x, depth + 1) for _, x in v.ents.values())
        if isinstance(v, HList):
            return all(self.conclusive(x, depth + 1) for x in v.items)
        return True


OPAQUE_OPS = frozenset(['re.sub', 're.split', 're.findall', 'slice', 'fmt', 'percent', 'translate', 'find', 'rfind',
                        'char', 'splitlines', 'rsplit', 'partition', 'removeprefix', 'removesuffix', 'getattr', 'type',
                        'getitem_opaque', 'format', 'title', 'capitalize', 'casefold', 'zfill', 'invert', 'startswith', 'endswith'])


class Run(object):
    def __init__(self, pid, root, tier='quick', seed=1):
        self.pid, self.root, self.tier, self.seed = pid, root, tier, seed
        self.t0 = time.time()
        self.I = None
        self.violations = []
        self.known = []
        self.inconclusive = []
        self.scen = []
        self.obs = {}
        self.cover = set()
        self.fcover = set()
        self.errors = []
        self.deadline = None
        self.extra = {}
        self.only = None
        self.verbose = False
        self.known_specs = []
        self.opaque_ops = OPAQUE_OPS
        self.claim = lambda i: True
        self.ends = False       # is running out of the loop or recursion budget a violation?
        self.index = -1

    def mine(self, name):
        """is the next scenario selected, and ours (the runner distributes them over processes)?"""
        self.index += 1
        if self.only and self.only not in name:
            return False
        return self.claim(self.index)

    def export(self):
        return {'scen': self.scen, 'violations': self.violations, 'known': self.known, 'inconclusive': self.inconclusive,
                'obs': self.obs, 'cover': self.cover, 'fcover': self.fcover, 'extra': self.extra}

    def merge(self, o):
        self.scen += o['scen']
        self.violations += o['violations']
        self.inconclusive += o['inconclusive']
        for k in o['known']:
            if k not in self.known:
                self.known.append(k)
        for k, n in o['obs'].items():
            self.obs[k] = self.obs.get(k, 0) + n
        self.cover |= o['cover']
        self.fcover |= o['fcover']
        self.extra.update(o['extra'])

    # a structural rule: fn(run) returns (number of constructs checked, [(construct, rule, message)]) -----------
    def structural(self, name, fn):
        if not self.mine(name):
            return
        n, bad = fn(self)
        st = {'name': name, 'index': self.index, 'paths': n, 'concluded': n, 'inconclusive': 0, 'skipped': 0, 'splits': 0, 'obligations': n,
              'diverged': 0, 'complete': True}
        self.scen.append(st)
        for _ in range(n):
            self.obligation(name, 'structural')
        for site, rule, msg in bad:
            self.fail(st, Fail(rule, msg, site), None)

    def obligation(self, scen, rule):
        k = (scen, rule)
        self.obs[k] = self.obs.get(k, 0) + 1

    def interp(self, fresh=False):
        if self.I is None or fresh:
            self.I = Interp(self.root)
        return self.I

    # one scenario --------------------------------------------------------
    def explore(self, name, body, setup=None, max_paths=4000, mods=('pyswagger',), max_fail=3, version=None, symlen=None):
        if not self.mine(name):
            return
        I = self.interp()
        if version is not None:
            old = I.LIBVAL['sys.version_info']
            I.LIBVAL['sys.version_info'] = NT(version, old.fields)
        oldlen = I.SYMLEN
        if symlen is not None:
            I.SYMLEN = symlen
        t0 = time.time()
        try:
            return self._explore(I, name, body, setup, max_paths, mods, max_fail)
        finally:
            if self.scen:
                self.scen[-1]['secs'] = round(time.time() - t0, 1)
            I.SYMLEN = oldlen
            if version is not None:
                I.LIBVAL['sys.version_info'] = old

    def _explore(self, I, name, body, setup, max_paths, mods, max_fail):
        st = {'name': name, 'index': self.index, 'paths': 0, 'concluded': 0, 'inconclusive': 0, 'skipped': 0, 'splits': 0, 'obligations': 0, 'diverged': 0, 'complete': False}
        self.scen.append(st)
        s = S(I, self, name)
        I.F = Facts()
        I.epoch = 0
        I.handlers, I.excs, I.stack = [], [], []
        I.chooser = Chooser()
        I.chooser.start()
        try:
            for m in mods:
                if I.import_module(m) is None:
                    raise AnchorMissing(m)
        except Raised as e:
            self.fail(st, Fail('import', 'import of %s raised %s' % (m, show(e.obj)), e.site), I)
            I.end_path()
            return
        except Unsupported as e:
            self.inconc(st, 'import: ' + str(e), I)
            I.end_path()
            return
        fails = 0
        # setup level
        I.epoch += 1
        I.dirty.append({})
        base = None
        try:
            pre = None
            resplit = False
            if setup is not None:
                I.events, I.steps = [], 0
                try:
                    pre = setup(s)
                    if I.chooser.log:
                        resplit = True
                except Fail as e:
                    self.fail(st, e, I)
                    return
                except Raised as e:
                    self.fail(st, Fail('setup', 'setup raised %s' % show(e.obj), e.site), I)
                    return
                except (Unsupported, Diverged, Inconclusive) as e:
                    self.inconc(st, 'setup: ' + str(e), I)
                    return
                except AnchorMissing:
                    raise
                except (Exception, RecursionError) as e:
                    if STRICT:
                        raise
                    self.inconc(st, 'setup: engine: %r' % (e,), I)
                    return
                I.end_path()
                if resplit:
                    # the preparation itself partitions: run it inside every partition
                    I.rollback()
                    I.F = Facts()
            base = I.F.copy()
            I.chooser = Chooser()
            I.epoch += 1
            I.dirty.append({})
            try:
                while True:
                    I.chooser.start()
                    I.F = base.copy()
                    I.events, I.handles, I.notes = [], [], []
                    I.steps = 0
                    I.faults = False
                    I.HOOKS = None
                    s.ob = 0
                    I.stack, I.handlers, I.excs = [], [], []
                    st['paths'] += 1
                    try:
                        if resplit:
                            pre = setup(s)
                            I.events, I.handles, I.notes = [], [], []
                        body(s) if setup is None else body(s, pre)
                        st['concluded'] += 1
                    except Fail as e:
                        if not I.consistent():
                            st['skipped'] += 1
                        else:
                            st["concluded"] += 1
                            fails += self.fail(st, e, I)
                    except (Skip, Infeasible):
                        st['skipped'] += 1
                    except Inconclusive as e:
                        self.inconc(st, str(e), I)
                    except Unsupported as e:
                        self.inconc(st, str(e), I)
                    except Diverged as e:
                        st['diverged'] += 1
                        if self.ends:
                            fails += self.fail(st, Fail('terminates', 'does not end: ' + str(e), self.last_site(I)), I)
                        else:
                            self.inconc(st, 'diverged: ' + str(e), I)
                    except Raised as e:
                        fails += self.fail(st, Fail('unexpected exception', '%s raised' % show(e.obj), e.site), I)
                    except AnchorMissing:
                        raise
                    except (Exception, RecursionError) as e:
                        if STRICT:
                            raise
                        self.inconc(st, 'engine: %r' % (e,), I)
                    st['obligations'] += s.ob
                    st['splits'] += len(I.chooser.log)
                    self.cover |= I.cover
                    self.fcover |= I.fcover
                    I.end_path()
                    I.rollback()
                    if fails >= max_fail:
                        break
                    if not I.chooser.advance():
                        st['complete'] = True
                        break
                    if st['paths'] >= max_paths:
                        break
                    if self.deadline and time.time() > self.deadline:
                        break
            finally:
                I.rollback()
                I.dirty.pop()
                I.epoch -= 1
        finally:
            I.end_path()
            I.rollback()
            I.dirty.pop()
            I.epoch -= 1

    def fail(self, st, e, I):
        site = e.site or (self.last_site(I) if I is not None else None)
        v = {'scenario': st['name'], 'index': st['index'], 'rule': e.rule, 'message': str(e.msg), 'construct': str(site),
             'decisions': ['%s = %s @ %s' % (l, c, loc) for l, c, loc in I.chooser.log][-40:] if I is not None else []}
        for k in self.known_specs:
            if k.get('scenario') == v['scenario'].replace(' ', '_') and k.get('rule') == v['rule'] and k.get('match', '') in v['message'].replace(' ', '_'):
                if k['text'] not in self.known:
                    self.known.append(k['text'])
                return 0
        self.violations.append(v)
        return 1

    def last_site(self, I):
        for c in reversed(I.chooser.log):
            if not c[2].startswith('<'):
                return c[2]
        return None

    def inconc(self, st, why, I):
        st['inconclusive'] += 1
        if not any(w['why'] == why and w['scenario'] == st['name'] for w in self.inconclusive):
            self.inconclusive.append({'scenario': st['name'], 'why': why, 'where': I.where()[-3:] if I.stack else []})
