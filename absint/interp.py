"""The abstract interpreter: expression / statement transfer functions over the AST."""
import ast
import os
import sys
import threading

from .values import *
from .facts import Facts, Chooser
from .sem import Sem

BRK, CNT = ('brk',), ('cnt',)
MISSING = object()
HERE = os.path.dirname(os.path.abspath(__file__))


class Mangler(ast.NodeTransformer):
    def __init__(self):
        self.stack = []

    def m(self, n):
        if self.stack and n.startswith('__') and not n.endswith('__'):
            c = self.stack[-1].lstrip('_')
            if c:
                return '_%s%s' % (c, n)
        return n

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(d) for d in node.bases]
        self.stack.append(node.name)
        node.body = [self.visit(b) for b in node.body]
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        node.name = self.m(node.name)
        self.generic_visit(node)
        return node

    def visit_Name(self, node):
        node.id = self.m(node.id)
        return node

    def visit_Attribute(self, node):
        node.attr = self.m(node.attr)
        self.generic_visit(node)
        return node

    def visit_arg(self, node):
        node.arg = self.m(node.arg)
        self.generic_visit(node)
        return node

    def visit_Global(self, node):
        node.names = [self.m(n) for n in node.names]
        return node

    visit_Nonlocal = visit_Global


class ScopeScan(ast.NodeVisitor):
    def __init__(self):
        self.assigned = set()
        self.glob = set()
        self.nonl = set()
        self.gen = False

    def visit_FunctionDef(self, node):
        self.assigned.add(node.name)
        for d in node.decorator_list:
            self.visit(d)
        for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
            self.visit(d)

    def visit_ClassDef(self, node):
        self.assigned.add(node.name)

    def visit_Lambda(self, node):
        for d in node.args.defaults:
            self.visit(d)

    def _comp(self, node):
        self.visit(node.generators[0].iter)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.assigned.add(node.id)

    def visit_Global(self, node):
        self.glob.update(node.names)

    def visit_Nonlocal(self, node):
        self.nonl.update(node.names)

    def visit_Import(self, node):
        for a in node.names:
            self.assigned.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, node):
        for a in node.names:
            self.assigned.add(a.asname or a.name)

    def visit_ExceptHandler(self, node):
        if node.name:
            self.assigned.add(node.name)
        self.generic_visit(node)

    def visit_Yield(self, node):
        self.gen = True
        self.generic_visit(node)

    visit_YieldFrom = visit_Yield


class Env(object):
    __slots__ = ('vars', 'parent', 'kind', 'mod', 'glob', 'nonl', 'locals_')

    def __init__(self, kind, parent, mod):
        self.vars = {}
        self.parent = parent
        self.kind = kind
        self.mod = mod
        self.glob = self.nonl = self.locals_ = ()


class Frame(object):
    __slots__ = ('fn', 'mod', 'line', 'env', 'args')

    def __init__(self, fn, mod, env):
        self.fn, self.mod, self.line, self.env = fn, mod, 0, env
        self.args = None


class ThreadGen(object):
    """an interpreted generator, run as a coroutine"""

    def __init__(self, I, run):
        self.I = I
        self.run = run
        self.a = threading.Semaphore(0)
        self.b = threading.Semaphore(0)
        self.state = 'new'
        self.item = None
        self.err = None
        self.kill = False
        self.frames = []
        self.sendv = None

    def send(self, v):
        self.sendv = v
        return self.__next__()

    def __iter__(self):
        return self

    def _main(self):
        self.a.acquire()
        try:
            if not self.kill:
                self.ret = self.run(self.yield_)
        except GeneratorExit:
            pass
        except BaseException as e:
            self.err = e
        self.state = 'done'
        self.b.release()

    def yield_(self, v):
        self.item = v
        self.state = 'susp'
        I = self.I
        n = self.base
        self.frames = I.stack[n:]
        del I.stack[n:]
        self.b.release()
        self.a.acquire()
        if self.kill:
            raise GeneratorExit()
        self.base = len(I.stack)
        I.stack.extend(self.frames)
        r, self.sendv = self.sendv, None
        return r

    def __next__(self):
        if self.state == 'done':
            raise StopIteration
        if self.state == 'new':
            t = threading.Thread(target=self._main)
            t.daemon = True
            self.base = len(self.I.stack)
            t.start()
            self.I.live_gens.append(self)
        self.state = 'run'
        self.a.release()
        self.b.acquire()
        if self.state == 'done':
            if self.err is not None:
                e, self.err = self.err, None
                raise e
            raise StopIteration
        return self.item

    def close(self):
        if self.state == 'susp':
            self.kill = True
            self.a.release()
            self.b.acquire()
        self.state = 'done'


class Interp(Sem):
    MAXLOOP = 400
    MAXDEPTH = 150

    def __init__(self, root, pkg='pyswagger'):
        self.root = root
        self.pkg = pkg
        self.F = Facts()
        self.chooser = Chooser()
        self.chooser.start()
        self.stack = []
        self.epoch = 0
        self.dirty = [{}]
        self.modules = {}
        self.events = []
        self.handles = []
        self.excs = []
        self.live_gens = []
        self.cover = set()
        self.fcover = set()
        self.handlers = []
        self.faults = False
        self.raised_at = set()   # raise statements that were executed
        self.unmodelled = set()
        self.notes = []
        self.steps = 0
        self.maxsteps = 3000000
        self.E = {}
        self.S = {}
        for n in dir(self):
            if n.startswith('e_'):
                self.E[n[2:]] = getattr(self, n)
            elif n.startswith('s_'):
                self.S[n[2:]] = getattr(self, n)
        from . import lib
        self.BUILTINS = {}
        self.LIB = lib.LIB
        self.LIBVAL = {}
        lib.install(self)
        for p in ('prelude',):
            m = Mod(p, os.path.join(HERE, p + '.py'))
            self.modules[p] = m
            self.exec_module(m)
        lib.post(self)

    # ------------------------------------------------------------ locations
    def loc(self):
        for f in reversed(self.stack):
            if f.mod is not None and f.mod.name.startswith(self.pkg):
                return '%s:%d (%s)' % (os.path.relpath(f.mod.path, self.root), f.line,
                                       f.fn.name if f.fn is not None else '<module>')
        return '<scenario>'

    def where(self):
        return [('%s:%d (%s)' % (os.path.relpath(f.mod.path, self.root), f.line,
                                 f.fn.name if f.fn is not None else '<module>'))
                for f in self.stack if f.mod.name.startswith(self.pkg)]

    # ------------------------------------------------------------ heap
    def touch(self, o):
        d = self.dirty[-1]
        if o.epoch < self.epoch and o not in d:
            d[o] = o.save()

    def rollback(self):
        d = self.dirty[-1]
        for o, st in d.items():
            o.restore(st)
        d.clear()

    def new_list(self, items=(), cls=None):
        return HList(items, cls or self.C_list, self.epoch)

    def new_dict(self, pairs=(), cls=None):
        d = HDict(cls or self.C_dict, self.epoch)
        for k, v in pairs:
            self.dset(d, k, v)
        return d

    def new_set(self, items=(), cls=None):
        s = HSet(cls or self.C_set, self.epoch)
        for k in items:
            self.sadd(s, k)
        return s

    def new_obj(self, cls):
        o = Obj(cls, self.epoch)
        o.site = self.loc() if self.stack else None
        return o

    # dictionaries -------------------------------------------------
    def hkey(self, k):
        if isinstance(k, HList) or isinstance(k, HDict):
            if not isinstance(k, HSet) or True:
                raise self.exc('TypeError', 'unhashable type')
        if isinstance(k, tuple):
            return tuple(self.hkey(self.U(self.R(x))) for x in k)
        return k

    def issym(self, k):
        if isinstance(k, tuple):
            return any(self.issym(x) for x in k)
        return isinstance(k, Term) and not k.fresh

    def find(self, d, k):
        """returns the hash key under which k is present in d, or MISSING (may split)"""
        k = self.R(k)
        if isinstance(k, Proxy):
            k = self.U(k)
        h = self.hkey(k)
        if h in d.ents:
            return h
        if self.issym(k):
            if self.kinds(k) & frozenset(['list', 'dict', 'set']) and isinstance(k, Term):
                if self.has_kind(k, ['list', 'dict', 'set']):
                    raise self.exc('TypeError', 'unhashable type')
            for hk, (kk, _) in list(d.ents.items()):
                if self.eq(kk, k):
                    return hk
        elif d.nsym:
            for hk, (kk, _) in list(d.ents.items()):
                if self.issym(kk) and self.eq(kk, k):
                    return hk
        return MISSING

    def dget(self, d, k):
        h = self.find(d, k)
        if h is MISSING:
            return False, None
        return True, d.ents[h][1]

    def dset(self, d, k, v):
        h = self.find(d, k)
        self.touch(d)
        if h is MISSING:
            k = self.U(self.R(k))
            h = self.hkey(k)
            d.ents[h] = (k, v)
            if self.issym(k):
                d.nsym += 1
        else:
            d.ents[h] = (d.ents[h][0], v)

    def ddel(self, d, h):
        self.touch(d)
        del d.ents[h]

    def sadd(self, s, k):
        if self.find(s, k) is MISSING:
            self.touch(s)
            k = self.U(self.R(k))
            s.ents[self.hkey(k)] = (k, True)
            if self.issym(k):
                s.nsym += 1

    # ------------------------------------------------------------ classes
    def c3(self, cls):
        seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
        res = [cls]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise self.exc('TypeError', 'MRO conflict')
            res.append(c)
            for s in seqs:
                if s[0] is c:
                    s.pop(0)

    def make_class(self, name, bases, ns, meta=None):
        bs = []
        for b in bases:
            if isinstance(b, Ext):
                b = self.ext_class(b)
            if not isinstance(b, Cls):
                raise Unsupported('base class %s' % show(b))
            bs.append(b)
        if not bs:
            bs = [self.C_object]
        c = Cls(name, bs, ns, meta or self.C_type, self.epoch)
        c.mro = self.c3(c)
        c.site = self.loc()
        return c

    def ext_class(self, e):
        v = self.LIBVAL.get(e.name)
        if isinstance(v, Cls):
            return v
        c = Cls(e.name, [self.C_object], {}, self.C_type)
        c.mro = [c, self.C_object]
        c.builtin = True
        c.module = e.name
        self.LIBVAL[e.name] = c
        return c

    def mro_get(self, cls, name):
        for c in cls.mro:
            if name in c.ns:
                v = c.ns[name]
                if c is self.C_object and name in ('__eq__', '__ne__', '__str__', '__repr__', '__hash__'):
                    return None
                return v
        return None

    def cls_of(self, v):
        v = self.R(v)
        if v is None:
            return self.C_NoneType
        t = type(v)
        c = self.PYCLS.get(t)
        if c is not None:
            return c
        if isinstance(v, Proxy):
            return self.cls_of(v.ref)
        if isinstance(v, Cls):
            return v.cls or self.C_type
        if isinstance(v, Obj) and v.cls is not None:
            return v.cls
        if isinstance(v, HSet):
            return self.C_set
        if isinstance(v, HDict):
            return self.C_dict
        if isinstance(v, HList):
            return self.C_list
        if isinstance(v, NT):
            return self.C_tuple
        if isinstance(v, (Fn, BoundM)):
            return self.C_function
        if isinstance(v, Builtin):
            return self.C_function
        if isinstance(v, Term):
            k = self.kind(v)
            return self.KCLS.get(k, self.C_object)
        if isinstance(v, Wrap):
            return {'property': self.C_property, 'classmethod': self.C_classmethod,
                    'staticmethod': self.C_staticmethod}[v.kind]
        if isinstance(v, Mod):
            return self.C_module
        return self.C_object

    def is_exc(self, c):
        return self.C_BaseException in c.mro

    def issub(self, c, target):
        return target in c.mro

    def exc(self, name, *args):
        c = self.BUILTINS[name]
        o = Obj(c, self.epoch)
        o.attrs['args'] = args
        r = Raised(o)
        r.site = self.loc()
        o.site = r.site
        return r

    def isinstance_(self, v, info):
        v0 = self.R(v)
        if isinstance(info, tuple):
            if isinstance(v0, Term):
                # one split for the union of plain kinds
                ks = set()
                for i in info:
                    k = self.kinds_of_cls(self.R(i))
                    if k is None:
                        break
                    ks |= k
                else:
                    return self.has_kind(v0, ks)
            return any(self.isinstance_(v, i) for i in info)
        info = self.R(info)
        if isinstance(info, HList):
            raise self.exc('TypeError', 'isinstance() arg 2')
        if isinstance(info, Ext):
            w = self.LIBVAL.get(info.name)
            if w is not None and not isinstance(w, Ext):
                return self.isinstance_(v, w)
        if isinstance(v0, Term):
            k = self.kinds_of_cls(info)
            if k is None:
                if isinstance(info, Cls) and not info.builtin:
                    return False
                raise Unsupported('isinstance(%s, %s)' % (show(v0), show(info)))
            return self.has_kind(v0, k)
        if isinstance(info, Ext):
            info = self.ext_class(info)
        if isinstance(v0, Proxy):
            if info is self.C_proxytype:
                return True
            v0 = self.U(v0)
        if not isinstance(info, Cls):
            raise Unsupported('isinstance of %s' % show(info))
        c = self.cls_of(v0)
        if info in c.mro:
            return True
        k = self.ABC.get(info.name) if info.builtin or info.module == 'prelude' else None
        if k is not None:
            return kind_of(v0) in k
        if info.name == 'callable':
            return isinstance(v0, (Fn, Builtin, BoundM))
        return False

    def kinds_of_cls(self, info):
        if isinstance(info, Ext):
            w = self.LIBVAL.get(info.name)
            if isinstance(w, tuple):
                ks = set()
                for x in w:
                    k = self.kinds_of_cls(x)
                    if k is None:
                        return None
                    ks |= k
                return ks
            if w is not None:
                info = w
            else:
                k = self.EXTKIND.get(info.name)
                return set(k) if k else None
        if isinstance(info, Cls):
            k = self.CLSKIND.get(info.name) if (info.builtin or info.module == 'prelude') else None
            if k is None:
                k = self.EXTKIND.get(info.name) if info.builtin else None
            return set(k) if k is not None else None
        return None

    # ------------------------------------------------------------ attributes
    def getattr_(self, o, name, default=MISSING):
        o = self.R(o)
        if isinstance(o, Proxy):
            if name == '__class__':
                return self.cls_of(o.ref)
            o = self.U(o)
        if isinstance(o, Term):
            r = self.term_attr(o, name)
            if r is not MISSING:
                return r
        elif isinstance(o, Ext):
            return self.ext_attr(o, name)
        elif isinstance(o, Cls):
            r = self.cls_attr(o, name)
            if r is not MISSING:
                return r
        elif isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            if name == '__name__':
                return o.name
            sub = self.find_module(o.name + '.' + name)
            if sub is not None and sub.loaded:
                return sub
        elif isinstance(o, Super):
            r = self.super_attr(o, name)
            if r is not MISSING:
                return r
        elif isinstance(o, NT) and name in o.fields:
            return o.items[o.fields.index(name)]
        elif isinstance(o, BoundM) and name in ('__func__', 'im_func'):
            return o.func
        elif isinstance(o, BoundM) and name in ('__self__', 'im_self'):
            return o.self_
        elif isinstance(o, BoundM):
            return self.getattr_(o.func, name, default)
        elif isinstance(o, (Fn, Builtin)) and name == '__name__':
            return o.name
        elif isinstance(o, Wrap) and name in ('setter', 'getter', 'deleter'):
            def mk(I, a, k, o=o, name=name):
                if name == 'setter':
                    return Wrap('property', o.f, a[0], o.fdel)
                if name == 'getter':
                    return Wrap('property', a[0], o.fset, o.fdel)
                return Wrap('property', o.f, o.fset, a[0])
            return Builtin('property.' + name, mk)
        elif isinstance(o, Wrap) and name in ('__func__', 'fget', 'fset'):
            return o.fset if name == 'fset' else o.f
        else:
            r = self.inst_attr(o, name)
            if r is not MISSING:
                return r
        self.model_gap(o, name)
        if default is not MISSING:
            return default
        raise self.exc('AttributeError', "%s has no attribute '%s'" % (show(o), name))

    REAL = {'str': str, 'bytes': bytes, 'int': int, 'float': float, 'bool': bool, 'list': list, 'dict': dict,
            'tuple': tuple, 'set': set, 'frozenset': frozenset, 'NoneType': type(None), 'type': type,
            'function': type(lambda: 0), 'property': property, 'object': object}

    def model_gap(self, o, name):
        """an attribute the real library object has but the model lacks: inconclusive, not an error"""
        if isinstance(o, Cls):
            cs = o.mro
        elif isinstance(o, Term):
            cs = [self.KCLS[k] for k in self.kinds(o) if k in self.KCLS]
        elif isinstance(o, (Mod,)):
            return
        elif isinstance(o, Super):
            cs = self.cls_of(o.self_).mro if not isinstance(o.self_, Cls) else o.self_.mro
        else:
            cs = self.cls_of(o).mro
        for c in cs:
            if c.builtin:
                r = self.REAL.get(c.name)
                if r is not None:
                    if hasattr(r, name) and not (r is object and name in ('__dir__', '__doc__')) and not (isinstance(o, Cls) and False):
                        raise Unsupported('%s.%s is not modelled' % (c.name, name))
                elif c.module not in ('prelude',) and not self.is_exc(c) and c.module in ('datetime', 'uuid', 'io', 'collections', 'functools', 'json', 'codecs', 'weakref', 'logging'):
                    raise Unsupported('%s.%s is not modelled' % (c.name, name))

    def inst_attr(self, o, name):
        c = self.cls_of(o)
        d = None
        for k in c.mro:
            if name in k.ns:
                d = k.ns[name]
                break
            if k.builtin and k.module and name not in ('__init__',) and k.module in self.OPAQUE_BASES:
                break
        if isinstance(d, Wrap) and d.kind == 'property':
            if d.f is None:
                raise self.exc('AttributeError', 'unreadable attribute ' + name)
            return self.call(d.f, [o], {})
        if isinstance(o, Obj) and name in o.attrs:
            return o.attrs[name]
        if d is not None:
            return self.bind_attr(d, o, c)
        if name == '__class__':
            return c
        if name == '__dict__' and isinstance(o, Obj):
            return self.new_dict(o.attrs.items())
        if name == '__doc__':
            return None
        if name == '__module__':
            return c.module
        g = self.mro_get(c, '__getattr__')
        if g is not None:
            return self.call(self.bind_attr(g, o, c), [name], {})
        return MISSING

    def bind_attr(self, d, o, c):
        if isinstance(d, (Fn, Builtin)):
            return BoundM(d, o)
        if isinstance(d, Wrap):
            if d.kind == 'staticmethod':
                return d.f
            if d.kind == 'classmethod':
                return BoundM(d.f, c)
            if d.kind == 'property':
                return self.call(d.f, [o], {})
        if isinstance(d, Obj) and type(d) is Obj and not isinstance(d, Cls):
            g = self.mro_get(self.cls_of(d), '__get__')
            if g is not None:
                return self.call(g, [d, o, c], {})
        return d

    def cls_attr(self, o, name):
        if name == '__name__':
            return o.name
        if name == '__mro__':
            return tuple(o.mro)
        if name == '__bases__':
            return tuple(o.bases)
        if name == '__dict__':
            return self.new_dict(o.ns.items())
        if name == '__class__':
            return o.cls or self.C_type
        for k in o.mro:
            if name in k.ns:
                d = k.ns[name]
                if isinstance(d, Wrap):
                    if d.kind == 'staticmethod':
                        return d.f
                    if d.kind == 'classmethod':
                        return BoundM(d.f, o)
                    return d
                if isinstance(d, Obj) and type(d) is Obj:
                    g = self.mro_get(self.cls_of(d), '__get__')
                    if g is not None:
                        return self.call(g, [d, None, o], {})
                return d
        meta = o.cls or self.C_type
        for k in meta.mro:
            if name in k.ns:
                return self.bind_attr(k.ns[name], o, meta)
        if name == 'mro':
            return Builtin('mro', lambda I, a, k: I.new_list(o.mro))
        if name == '__module__':
            return o.module
        if name == '__doc__':
            return None
        return MISSING

    def super_attr(self, o, name):
        s = o.self_
        if isinstance(s, Cls):
            c = s if self.issub(s, o.start) else (s.cls or self.C_type)
        else:
            c = self.cls_of(s)
        i = c.mro.index(o.start)
        for k in c.mro[i + 1:]:
            if name in k.ns:
                d = k.ns[name]
                if isinstance(d, (Fn, Builtin)):
                    if name == '__new__':
                        return d
                    return BoundM(d, s)
                if isinstance(d, Wrap) and d.kind == 'classmethod':
                    return BoundM(d.f, c if not isinstance(s, Cls) else s)
                return self.bind_attr(d, s, c)
            if k.builtin and k.module in self.OPAQUE_BASES:
                nm = k.name + '.' + name
                return Builtin(nm, lambda I, a, kw, nm=nm: I.call_ext(nm, [s] + list(a), kw))
        return MISSING

    def setattr_(self, o, name, v):
        o = self.U(self.R(o))
        if isinstance(o, Cls):
            self.touch(o)
            o.ns[name] = v
            return
        if isinstance(o, Mod):
            self.touch(o)
            o.ns[name] = v
            return
        if isinstance(o, (Fn,)):
            self.touch(o)
            o.attrs[name] = v
            return
        if isinstance(o, Ext):
            raise Unsupported('assignment to attribute of %s' % o.name)
        if isinstance(o, Term):
            self.event('setattr', [o, name, v], {})
            self.F.misc[('attr', o, name)] = v
            return
        if isinstance(o, Obj):
            c = self.cls_of(o)
            d = None
            for k in c.mro:
                if name in k.ns:
                    d = k.ns[name]
                    break
            if isinstance(d, Wrap) and d.kind == 'property':
                if d.fset is None:
                    raise self.exc('AttributeError', "can't set attribute " + name)
                self.call(d.fset, [o, v], {})
                return
            s = self.mro_get(c, '__setattr__')
            if s is not None and not (isinstance(s, Builtin) and s.name == 'object.__setattr__'):
                self.call(self.bind_attr(s, o, c), [name, v], {})
                return
            self.touch(o)
            o.attrs[name] = v
            return
        raise self.exc('AttributeError', 'cannot set attribute %s on %s' % (name, show(o)))

    def delattr_(self, o, name):
        o = self.U(self.R(o))
        if isinstance(o, Cls):
            if name not in o.ns:
                raise self.exc('AttributeError', name)
            self.touch(o)
            del o.ns[name]
        elif isinstance(o, Obj):
            if name not in o.attrs:
                raise self.exc('AttributeError', name)
            self.touch(o)
            del o.attrs[name]
        else:
            raise Unsupported('del attribute')

    def term_attr(self, o, name):
        if ('attr', o, name) in self.F.misc:
            return self.F.misc[('attr', o, name)]
        if name == '__class__':
            k = self.kind(o)
            c = self.KCLS.get(k)
            if c is not None:
                return c
            return T('class', o, kinds=OBJ)
        h = self.TERM_ATTR.get(o.op)
        if h is not None:
            r = h(self, o, name)
            if r is not MISSING:
                return r
        ks = self.kinds(o)
        known = [k for k in sorted(ks) if k in self.KCLS]
        if known:
            yes = [k for k in known if name in self.KATTR[k]]
            opaque = ks - frozenset(known)
            if yes or not opaque:
                if self.has_kind(o, yes):
                    k = self.kind(o)
                    o = self.R(o)
                    if not isinstance(o, Term):
                        return self.inst_attr(o, name)
                    return self.bind_attr(self.mro_get(self.KCLS[k], name), o, self.KCLS[k])
                if not opaque:
                    return MISSING
            if not self.has_kind(o, opaque):
                return MISSING
        if o.note == 'closed':
            return MISSING
        return T('attr', o, name)

    def ext_attr(self, o, name):
        full = self.canon(o.name + '.' + name)
        if full in self.LIBVAL:
            return self.LIBVAL[full]
        if full in ('sys.modules',):
            return Ext(full)
        if name in ('__name__',):
            return o.name.split('.')[-1]
        return Ext(full)

    def canon(self, n):
        if n.startswith('six.moves.'):
            r = n[len('six.moves.'):]
            if r.startswith('urllib.'):
                return r
            if r in self.BUILTINS:
                return 'six.moves.' + r
            return self.SIXMOVES.get(r, n)
        return self.ALIAS.get(n, n)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.R(f)
        if isinstance(f, Proxy):
            f = self.U(f)
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            v = self.LIBVAL.get(f.name)
            if v is not None and not isinstance(v, Ext):
                return self.call(v, args, kw)
            return self.call_ext(f.name, args, kw)
        if isinstance(f, Wrap) and f.kind == 'staticmethod':
            return self.call(f.f, args, kw)
        if isinstance(f, Term):
            return self.call_term(f, args, kw)
        if isinstance(f, Obj):
            m = self.mro_get(self.cls_of(f), '__call__')
            if m is not None:
                return self.call(m, [f] + list(args), kw)
        raise self.exc('TypeError', '%s is not callable' % show(f))

    def call_term(self, f, args, kw):
        if f.op == 'sym' and f.note == 'callback' or f.op == 'attr' or f.op == 'sym':
            h = self.TERM_CALL
            for g in h:
                r = g(self, f, args, kw)
                if r is not MISSING:
                    return r
        self.unmodelled.add('call of ' + show(f))
        raise Unsupported('call of opaque value %s' % show(f))

    def call_ext(self, name, args, kw):
        g = self.LIB.get(name)
        if g is not None:
            return g(self, args, kw)
        for pre, h in self.EXTPREFIX:
            if name.startswith(pre):
                return h(self, name, args, kw)
        self.unmodelled.add(name)
        raise Unsupported('call of unmodelled external %s' % name)

    def event(self, name, args, kw, res=None):
        self.events.append(Event(name, list(args), dict(kw), res, self.loc(),
                                 [self.snap(a) for a in args] + [(k, self.snap(v)) for k, v in sorted(kw.items())]))

    def snap(self, v, seen=()):
        """immutable copy of an abstract value (as of now)"""
        v = self.U(self.R(v))
        if v in seen if isinstance(v, Obj) else False:
            return ('cycle',)
        s = seen + (v,) if isinstance(v, Obj) else seen
        if isinstance(v, HSet):
            return ('set',) + tuple(self.snap(k, s) for k, _ in v.ents.values())
        if isinstance(v, HDict):
            return ('dict', v.cls.name if v.cls else 'dict') + tuple((self.snap(k, s), self.snap(x, s)) for k, x in v.ents.values())
        if isinstance(v, HList):
            return ('list', v.cls.name if v.cls else 'list') + tuple(self.snap(x, s) for x in v.items)
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.snap(x, s) for x in v)
        return v

    def instantiate(self, c, args, kw):
        h = self.CONSTRUCT.get(c) if c.builtin else None
        if h is not None:
            return h(self, c, args, kw)
        meta = c.cls
        if meta is not None and meta is not self.C_type:
            m = self.mro_get(meta, '__call__')
            if isinstance(m, Fn):
                return self.call(m, [c] + list(args), kw)
        n = self.mro_get(c, '__new__')
        if isinstance(n, Wrap):
            n = n.f
        if isinstance(n, Fn):
            o = self.call(n, [c] + list(args), kw)
            if not (isinstance(o, Obj) and o.cls is not None and self.issub(o.cls, c)):
                return o
        else:
            o = self.alloc(c, args, kw)
        i = None
        for k in c.mro:
            if '__init__' in k.ns:
                i = k.ns['__init__']
                break
            if k.builtin and k.module in self.OPAQUE_BASES:
                self.event(k.name + '.__init__', [o] + list(args), kw)
                return o
        if i is not None:
            self.call(i, [o] + list(args), kw)
        elif (args or kw) and not self.is_exc(c):
            raise self.exc('TypeError', '%s() takes no arguments' % c.name)
        return o

    def alloc(self, c, args=(), kw=None):
        if self.C_dict in c.mro:
            o = HDict(c, self.epoch)
        elif self.C_list in c.mro:
            o = HList((), c, self.epoch)
        elif self.C_set in c.mro:
            o = HSet(c, self.epoch)
        else:
            o = Obj(c, self.epoch)
            if self.is_exc(c):
                o.attrs['args'] = tuple(args)
        o.site = self.loc()
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        env = Env('func', f.env, f.mod)
        env.locals_, env.glob, env.nonl = f.locals_
        v = env.vars
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        n = len(pos)
        args = list(args)
        if len(args) > n and a.vararg is None:
            raise self.exc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, n, len(args)))
        for p, x in zip(pos, args):
            v[p] = x
        if a.vararg is not None:
            v[a.vararg.arg] = tuple(args[n:])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = []
        for k, x in kw.items():
            if k in pos or k in kwonly:
                if k in v:
                    raise self.exc('TypeError', '%s() got multiple values for argument %r' % (f.name, k))
                v[k] = x
            elif a.kwarg is not None:
                extra.append((k, x))
            else:
                raise self.exc('TypeError', '%s() got an unexpected keyword argument %r' % (f.name, show(k)))
        if a.kwarg is not None:
            v[a.kwarg.arg] = self.new_dict(extra)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in v:
                j = i - (n - nd)
                if j < 0:
                    raise self.exc('TypeError', '%s() missing required argument %r' % (f.name, p))
                v[p] = f.defaults[j]
        for p, d in zip(kwonly, f.kwdefaults):
            if p not in v:
                if d is MISSING:
                    raise self.exc('TypeError', '%s() missing keyword argument %r' % (f.name, p))
                v[p] = d
        return env

    def call_fn(self, f, args, kw):
        h = self.HOOKS.get(f) if self.HOOKS else None
        if h is not None:
            r = h(self, f, args, kw)
            if r is not MISSING:
                return r
        env = self.bind_args(f, args, kw)
        if len(self.stack) > self.MAXDEPTH:
            raise Diverged('recursion deeper than %d at %s' % (self.MAXDEPTH, self.loc()))
        if f.isgen:
            def run(yield_, f=f, env=env):
                env.vars['@yield'] = yield_
                return self.run_body(f, env)
            return NatIter(ThreadGen(self, run), 'generator')
        return self.run_body(f, env)

    HOOKS = None

    def run_body(self, f, env):
        fr = Frame(f, f.mod, env)
        self.stack.append(fr)
        n = len(self.stack)
        self.fcover.add((f.mod.name, f.name, f.node.lineno if hasattr(f.node, 'lineno') else 0))
        try:
            if isinstance(f.node, ast.Lambda):
                fr.line = f.node.lineno
                return self.ev(f.node.body, env)
            r = self.block(f.node.body, env)
            if r is not None and r[0] == 'ret':
                return r[1]
            return None
        finally:
            del self.stack[n - 1:]

    # ------------------------------------------------------------ modules
    def find_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name != self.pkg and not name.startswith(self.pkg + '.'):
            return None
        p = os.path.join(self.root, *name.split('.'))
        for path, pk in ((os.path.join(p, '__init__.py'), True), (p + '.py', False)):
            if os.path.isfile(path):
                m = Mod(name, path)
                m.is_pkg = pk
                return m
        return None

    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if '.' in name:
            self.import_module(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = self.find_module(name)
        if m is None:
            return None
        self.modules[name] = m
        self.exec_module(m)
        if '.' in name:
            par, last = name.rsplit('.', 1)
            p = self.modules.get(par)
            if p is not None:
                p.ns.setdefault(last, m)
        return m

    def exec_module(self, m):
        src = open(m.path, encoding='utf-8').read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m.tree = Mangler().visit(ast.parse(src, m.path))
        m.ns['__name__'] = m.name
        m.ns['__file__'] = m.path
        env = Env('mod', None, m)
        env.vars = m.ns
        self.stack.append(Frame(None, m, env))
        try:
            self.block(m.tree.body, env)
        finally:
            self.stack.pop()
        m.loaded = True

    def resolve_import(self, name, level, mod):
        if level:
            base = mod.name if mod.is_pkg else mod.name.rsplit('.', 1)[0]
            for _ in range(level - 1):
                base = base.rsplit('.', 1)[0]
            name = base + ('.' + name if name else '')
        return name

    def s_Import(self, n, env):
        for a in n.names:
            if a.name == self.pkg or a.name.startswith(self.pkg + '.'):
                m = self.import_module(a.name)
                if m is None:
                    raise self.exc('ImportError', a.name)
                if a.asname:
                    self.assign_name(a.asname, m, env)
                else:
                    self.assign_name(a.name.split('.')[0], self.import_module(a.name.split('.')[0]), env)
            else:
                if a.asname:
                    self.assign_name(a.asname, self.ext_val(a.name), env)
                else:
                    self.assign_name(a.name.split('.')[0], self.ext_val(a.name.split('.')[0]), env)

    def ext_val(self, name):
        name = self.canon(name)
        v = self.LIBVAL.get(name)
        return v if v is not None else Ext(name)

    def s_ImportFrom(self, n, env):
        if n.module == '__future__':
            return
        name = self.resolve_import(n.module or '', n.level, env.mod)
        if name == self.pkg or name.startswith(self.pkg + '.'):
            m = self.import_module(name)
            if m is None:
                raise self.exc('ImportError', name)
            for a in n.names:
                if a.name == '*':
                    al = m.ns.get('__all__')
                    names = al.items if isinstance(al, HList) else [k for k in m.ns if not k.startswith('_')]
                    for k in names:
                        self.assign_name(k, m.ns[k], env)
                    continue
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    v = self.import_module(name + '.' + a.name)
                    if v is None:
                        raise self.exc('ImportError', 'cannot import name %s from %s' % (a.name, name))
                self.assign_name(a.asname or a.name, v, env)
        else:
            for a in n.names:
                if a.name == '*':
                    raise Unsupported('star import from ' + name)
                if name == 'absint_native':
                    self.assign_name(a.asname or a.name, self.NATIVE[a.name], env)
                    continue
                self.assign_name(a.asname or a.name, self.ext_val(name + '.' + a.name), env)

    # ------------------------------------------------------------ names
    def assign_name(self, name, v, env):
        if name in env.glob:
            self.touch(env.mod)
            env.mod.ns[name] = v
        elif name in env.nonl:
            e = env.parent
            while e is not None:
                if e.kind == 'func' and name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
            raise Unsupported('nonlocal ' + name)
        else:
            if env.kind == 'mod':
                self.touch(env.mod)
            env.vars[name] = v

    def e_Name(self, n, env):
        name = n.id
        v = env.vars.get(name, MISSING)
        if v is not MISSING and name not in env.glob:
            return v
        if env.kind == 'func' and name in env.locals_ and name not in env.glob:
            raise self.exc('UnboundLocalError', "local variable '%s' referenced before assignment" % name)
        if name not in env.glob:
            e = env.parent
            while e is not None:
                if e.kind != 'class' and name in e.vars:
                    return e.vars[name]
                e = e.parent
        m = env.mod.ns
        if name in m:
            return m[name]
        b = self.BUILTINS.get(name, MISSING)
        if b is not MISSING:
            return b
        import builtins as _b
        if hasattr(_b, name) or name == '__class__':
            raise Unsupported('builtin %s is not modelled' % name)
        raise self.exc('NameError', "name '%s' is not defined" % name)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        fr = self.stack[-1]
        for s in stmts:
            fr.line = s.lineno
            self.cover.add((fr.mod.name, s.lineno))
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Diverged('step budget')
            h = self.S.get(type(s).__name__)
            if h is None:
                raise Unsupported('statement %s at %s' % (type(s).__name__, self.loc()))
            r = h(s, env)
            if r is not None:
                return r
        return None

    def s_Expr(self, n, env):
        self.ev(n.value, env)

    def s_Pass(self, n, env):
        pass

    def s_Global(self, n, env):
        pass

    s_Nonlocal = s_Global

    def s_Return(self, n, env):
        return ('ret', self.ev(n.value, env) if n.value is not None else None)

    def s_Break(self, n, env):
        return BRK

    def s_Continue(self, n, env):
        return CNT

    def s_Assign(self, n, env):
        v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(t.slice, ast.Slice):
                self.setslice(o, self.slice_(t.slice, env), v)
            else:
                self.setitem(o, self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = self.unpack(v, len(t.elts), bool(star))
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise self.exc('ValueError', 'not enough values to unpack')
                mid = vals[i:len(vals) - after]
                vals = vals[:i] + [self.new_list(mid)] + vals[len(vals) - after:]
                for x, y in zip(t.elts, vals):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
            else:
                for x, y in zip(t.elts, vals):
                    self.assign(x, y, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, star=False):
        v = self.R(v)
        if isinstance(v, Term) and not star:
            ks = self.kinds(v)
            if ks & frozenset(['tuple', 'list', 'obj']) and v.op in ('item', 'sym', 'getitem', 'call', 'attr'):
                self.has_kind(v, ['tuple', 'list', 'obj'])
                return [T('item', v, i) for i in range(n)]
        vals = list(self.iterate(v))
        if not star and len(vals) != n:
            raise self.exc('ValueError', 'unpack: expected %d values, got %d' % (n, len(vals)))
        return vals

    def s_AugAssign(self, n, env):
        t = n.target
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            cur = self.e_Name(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            self.assign_name(t.id, self.inplace(op, cur, self.ev(n.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.inplace(op, cur, self.ev(n.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.ev(n.value, env)))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, a, b):
        x = self.U(self.R(a))
        if op == 'Add' and isinstance(x, HList):
            vals = list(self.iterate(b))
            self.touch(x)
            x.items.extend(vals)
            return a
        if op == 'BitOr' and isinstance(x, HSet):
            for k in list(self.iterate(b)):
                self.sadd(x, k)
            return a
        if op == 'Sub' and isinstance(x, HSet):
            for k in list(self.iterate(b)):
                h = self.find(x, k)
                if h is not MISSING:
                    self.ddel(x, h)
            return a
        return self.binop(op, a, b)

    def s_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                if t.id in env.vars:
                    del env.vars[t.id]
                else:
                    raise self.exc('NameError', t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                if isinstance(t.slice, ast.Slice):
                    lo, hi, st = self.slice_(t.slice, env)
                    o = self.U(self.R(o))
                    if isinstance(o, HList):
                        self.touch(o)
                        del o.items[slice(lo, hi, st)]
                        continue
                    raise Unsupported('del slice')
                self.delitem(o, self.ev(t.slice, env))
            elif isinstance(t, ast.Attribute):
                self.delattr_(self.ev(t.value, env), t.attr)
            else:
                raise Unsupported('del')

    def s_If(self, n, env):
        if self.truth(self.ev(n.test, env)):
            return self.block(n.body, env)
        return self.block(n.orelse, env)

    def s_While(self, n, env):
        i = 0
        while self.truth(self.ev(n.test, env)):
            i += 1
            if i > self.MAXLOOP:
                raise Diverged('while loop at %s exceeds %d iterations' % (self.loc(), self.MAXLOOP))
            r = self.block(n.body, env)
            self.stack[-1].line = n.lineno
            if r is BRK:
                return None
            if r is not None and r is not CNT:
                return r
        return self.block(n.orelse, env)

    def s_For(self, n, env):
        it = self.iterate(self.ev(n.iter, env))
        i = 0
        fr = self.stack[-1]
        for v in it:
            i += 1
            if i > self.MAXLOOP:
                raise Diverged('for loop at %s exceeds %d iterations' % (self.loc(), self.MAXLOOP))
            self.assign(n.target, v, env)
            r = self.block(n.body, env)
            fr.line = n.lineno
            if r is BRK:
                return None
            if r is not None and r is not CNT:
                return r
        return self.block(n.orelse, env)

    def s_With(self, n, env):
        return self.with_(n, 0, env)

    def with_(self, n, i, env):
        if i == len(n.items):
            return self.block(n.body, env)
        it = n.items[i]
        cm = self.ev(it.context_expr, env)
        c = self.cls_of(cm)
        enter = self.getattr_(cm, '__enter__')
        ex = self.getattr_(cm, '__exit__')
        v = self.call(enter, [], {})
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            r = self.with_(n, i + 1, env)
        except Raised as e:
            sup = self.call(ex, [e.obj.cls, e.obj, None], {})
            if self.truth(sup):
                return None
            raise
        self.call(ex, [None, None, None], {})
        return r

    def s_Raise(self, n, env):
        if n.exc is None:
            if not self.excs:
                raise self.exc('RuntimeError', 'No active exception to reraise')
            raise self.excs[-1]
        v = self.ev(n.exc, env)
        v = self.R(v)
        if isinstance(v, Ext):
            v = self.LIBVAL.get(v.name, v)
        if isinstance(v, Cls):
            v = self.instantiate(v, [], {})
        if n.cause is not None:
            self.ev(n.cause, env)
        if isinstance(v, Ext):
            v = self.instantiate(self.ext_class(v), [], {})
        if not isinstance(v, Obj) or isinstance(v, Term) or v.cls is None or not (self.is_exc(v.cls) or v.cls.builtin):
            raise self.exc('TypeError', 'exceptions must derive from BaseException')
        for e in self.excs:
            if e.obj is v:
                self.raised_at.add(self.loc())
                raise e
        r = Raised(v)
        r.site = self.loc()
        self.raised_at.add(r.site)
        raise r

    def match_exc(self, e, t):
        t = self.R(t)
        if isinstance(t, tuple):
            return any(self.match_exc(e, x) for x in t)
        if isinstance(t, Ext):
            t = self.LIBVAL.get(t.name) or self.ext_class(t)
        return isinstance(t, Cls) and t in e.obj.cls.mro

    def s_Try(self, n, env):
        r = None
        try:
            exc = None
            self.handlers.append((n, env))
            try:
                r = self.block(n.body, env)
            except Raised as e:
                exc = e
            finally:
                self.handlers.pop()
            if exc is None:
                if r is None:
                    r = self.block(n.orelse, env)
            else:
                for h in n.handlers:
                    if h.type is None or self.match_exc(exc, self.ev(h.type, env)):
                        if h.name:
                            env.vars[h.name] = exc.obj
                        self.excs.append(exc)
                        try:
                            r = self.block(h.body, env)
                        finally:
                            self.excs.pop()
                        break
                else:
                    raise exc
        except (Raised, GeneratorExit):
            if n.finalbody:
                f = self.block(n.finalbody, env)
                if f is not None:
                    return f
            raise
        if n.finalbody:
            f = self.block(n.finalbody, env)
            if f is not None:
                return f
        return r

    def catches(self, name):
        """is there an active handler (in repository code) that catches exception class name?"""
        c = self.BUILTINS.get(name)
        for n, env in reversed(self.handlers):
            for h in n.handlers:
                if h.type is None:
                    return True
                try:
                    t = self.ev(h.type, env)
                except Raised:
                    continue
                ts = t if isinstance(t, tuple) else (t,)
                for x in ts:
                    if isinstance(x, Cls) and c is not None and x in c.mro:
                        return True
        return False

    def may_raise(self, name, what):
        """an operation on opaque data that can fail: split when the failure is observable"""
        if self.faults or self.catches(name):
            if self.split([False, True], '%s raises %s' % (what, name)):
                raise self.exc(name, what)

    def s_Assert(self, n, env):
        if not self.truth(self.ev(n.test, env)):
            raise self.exc('AssertionError', '')

    def s_FunctionDef(self, n, env):
        v = self.make_fn(n, n.name, env)
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        self.assign_name(n.name, v, env)

    def scan_scope(self, n):
        r = getattr(n, '_scope', None)
        if r is None:
            sc = ScopeScan()
            body = n.body if isinstance(n.body, list) else [n.body]
            for b in body:
                sc.visit(b)
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                sc.assigned.add(x.arg)
            for x in (a.vararg, a.kwarg):
                if x is not None:
                    sc.assigned.add(x.arg)
            loc = frozenset(sc.assigned - sc.glob - sc.nonl)
            r = n._scope = ((loc, frozenset(sc.glob), frozenset(sc.nonl)), sc.gen)
        return r

    def make_fn(self, n, name, env):
        f = Fn(self.C_function, self.epoch)
        f.node, f.name = n, name
        f.defaults = [self.ev(d, env) for d in n.args.defaults]
        f.kwdefaults = [self.ev(d, env) if d is not None else MISSING for d in n.args.kw_defaults]
        f.env, f.mod = env, env.mod
        f.locals_, f.isgen = self.scan_scope(n)
        f.owner = None
        for i, d in enumerate(f.defaults):
            if isinstance(d, Obj) and d.label is None and type(d) in (HList, HDict, HSet):
                d.label = None
                d.attrs['@default'] = '%s:%s' % (env.mod.name, name)
        return f

    def e_Lambda(self, n, env):
        return self.make_fn(n, '<lambda>', env)

    def s_ClassDef(self, n, env):
        bases = [self.R(self.ev(b, env)) for b in n.bases]
        meta = None
        for k in n.keywords:
            if k.arg == 'metaclass':
                meta = self.ev(k.value, env)
        if len(bases) == 1 and isinstance(bases[0], WithMeta):
            meta = bases[0].meta
            bases = list(bases[0].bases)
        if meta is None:
            for b in bases:
                if isinstance(b, Cls) and b.cls is not None and b.cls is not self.C_type:
                    meta = b.cls
                    break
        ce = Env('class', env, env.mod)
        ce.vars['__module__'] = env.mod.name
        self.block(n.body, ce)
        for k, v in ce.vars.items():
            if isinstance(v, Fn) and v.owner is None:
                v.owner = n.name
        if meta is not None and meta is not self.C_type:
            spc = self.new_dict(ce.vars.items())
            c = self.call(meta, [n.name, tuple(bases), spc], {})
        else:
            c = self.make_class(n.name, bases, ce.vars)
        if isinstance(c, Cls):
            c.module = env.mod.name
            c.node = n
            self.fix_super(c)
        for d in reversed(n.decorator_list):
            c = self.call(self.ev(d, env), [c], {})
        self.assign_name(n.name, c, env)

    def fix_super(self, c):
        for v in c.ns.values():
            f = v
            if isinstance(v, Wrap):
                for f in (v.f, v.fset):
                    if isinstance(f, Fn) and not isinstance(f.owner, Cls):
                        f.owner = c
            elif isinstance(f, Fn) and not isinstance(f.owner, Cls):
                f.owner = c

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        h = self.E.get(type(n).__name__)
        if h is None:
            raise Unsupported('expression %s at %s' % (type(n).__name__, self.loc()))
        return h(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Attribute(self, n, env):
        return self.getattr_(self.ev(n.value, env), n.attr)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def e_List(self, n, env):
        return self.new_list(self.elts(n.elts, env))

    def e_Set(self, n, env):
        return self.new_set(self.elts(n.elts, env))

    def e_Dict(self, n, env):
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, env)
                for kk in list(self.iterate(self.call(self.getattr_(o, 'keys'), [], {}))):
                    self.dset(d, kk, self.getitem(o, kk))
            else:
                kk = self.ev(k, env)
                self.dset(d, kk, self.ev(v, env))
        return d

    def e_IfExp(self, n, env):
        return self.ev(n.body, env) if self.truth(self.ev(n.test, env)) else self.ev(n.orelse, env)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1:
                return v
            if self.truth(v) != isand:
                return self.R(v)
        return v

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            r = self.R(v)
            return not self.truth(v)
        v = self.R(v)
        if isinstance(n.op, ast.USub):
            return self.mk_neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if is_const(v):
            return ~v
        return T('invert', v, kinds=INT)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(type(n.op).__name__, a, b)

    PYOP = {
        'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b,
        'Div': lambda a, b: a / b, 'Mod': lambda a, b: a % b, 'FloorDiv': lambda a, b: a // b,
        'Pow': lambda a, b: a ** b, 'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b,
        'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b,
    }

    def binop(self, op, a, b):
        a, b = self.U(self.R(a)), self.U(self.R(b))
        if op == 'Mod' and isinstance(a, str):
            return self.mk_percent(a, b)
        if isinstance(a, CONST) and isinstance(b, CONST):
            try:
                return self.PYOP[op](a, b)
            except TypeError as e:
                raise self.exc('TypeError', str(e))
            except ZeroDivisionError as e:
                raise self.exc('ZeroDivisionError', str(e))
        if isinstance(a, Ext) and a.name in self.LIBVAL:
            a = self.LIBVAL[a.name]
        # user operators
        names = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'BitAnd': '__and__', 'BitOr': '__or__', 'BitXor': '__xor__'}
        if op in names and isinstance(a, Obj) and a.cls is not None and not a.cls.builtin:
            m = self.mro_get(a.cls, names[op])
            if isinstance(m, Fn):
                return self.call(m, [a, b], {})
        if op == 'Add':
            if isinstance(a, (HList,)) and isinstance(b, HList):
                return self.new_list(a.items + b.items)
            if isinstance(a, NT):
                a = a.items
            if isinstance(b, NT):
                b = b.items
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if op == 'Mult':
            if isinstance(a, HList) and isinstance(b, int):
                return self.new_list(a.items * b)
            if isinstance(a, tuple) and isinstance(b, int):
                return a * b
        if op in ('Sub', 'BitAnd', 'BitOr', 'BitXor') and isinstance(a, (HSet, View)):
            if not isinstance(b, (HSet, View)):
                if not (isinstance(a, View) and isinstance(b, (HList, NatIter))):
                    raise self.exc('TypeError', 'unsupported operand for set')
            return self.setop(op, a, b)
        if op == 'BitOr' and isinstance(a, HDict) and isinstance(b, HDict):
            r = self.new_dict((k, v) for k, v in a.ents.values())
            for k, v in b.ents.values():
                self.dset(r, k, v)
            return r
        if isinstance(a, Term) or isinstance(b, Term):
            if op == 'Mult' or 'timedelta' in (getattr(a, 'op', ''), getattr(b, 'op', '')):
                r = self.TIMES(self, op, a, b)
                if r is not MISSING:
                    return r
            if op == 'Mult' and isinstance(a, Term) and isinstance(b, (str,)):
                a, b = b, a
            ks = set(self.kinds(a)) | set(self.kinds(b))
            if op == 'Add':
                if isinstance(a, str) or isinstance(b, str) or self.kinds(a) == STR or self.kinds(b) == STR:
                    for x in (a, b):
                        if self.kinds(x) != STR:
                            if not self.has_kind(x, ['str', 'obj']):
                                raise self.exc('TypeError', 'can only concatenate str')
                    return self.mk_cat(a, b)
                if ks <= NUMERIC:
                    return self.mk_add(a, b)
                if ks <= BYTES:
                    return self.mk_bcat(a, b)
            if op == 'Sub' and ks <= NUMERIC:
                return self.mk_add(a, self.mk_neg(b))
            for x in (a, b):
                if isinstance(x, Term) and 'none' in self.kinds(x) and self.has_kind(x, ['none']):
                    raise self.exc('TypeError', 'unsupported operand NoneType')
            a, b = self.R(a), self.R(b)
            if op == 'Mod':
                # the remainder of a number does not depend on its int/float representation
                a, b = [x.args[0] if isinstance(x, Term) and x.op == 'float' and self.kinds(x.args[0]) <= NUM else x for x in (a, b)]
            k = NUM if ks <= NUMERIC else STR if 'str' in ks and op in ('Mult', 'Mod') else ALLK
            if ks <= frozenset(['int', 'bool']) and op not in ('Div', 'Pow'):
                k = INT
            if op in ('Mult', 'BitAnd', 'BitOr') and ks <= NUMERIC and isinstance(a, Term) and isinstance(b, Term) and a.n > b.n:
                a, b = b, a
            if op == 'Mult' and ks <= NUMERIC and not isinstance(a, Term):
                a, b = b, a
            return T(op.lower(), a, b, kinds=k)
        raise self.exc('TypeError', 'unsupported operand types for %s: %s, %s' % (op, show(a), show(b)))

    def setop(self, op, a, b):
        la = list(self.iterate(a))
        sb = b if isinstance(b, HSet) else self.new_set(self.iterate(b))
        if op == 'Sub':
            return self.new_set(x for x in la if self.find(sb, x) is MISSING)
        if op == 'BitAnd':
            return self.new_set(x for x in la if self.find(sb, x) is not MISSING)
        r = self.new_set(la)
        if op == 'BitOr':
            for k, _ in list(sb.ents.values()):
                self.sadd(r, k)
            return r
        sa = self.new_set(la)
        r = self.new_set(x for x in la if self.find(sb, x) is MISSING)
        for k, _ in list(sb.ents.values()):
            if self.find(sa, k) is MISSING:
                self.sadd(r, k)
        return r

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, env)
            res = self.compare(type(op).__name__, left, right)
            if not self.truth(res):
                return res if isinstance(res, bool) else False
            left = right
        return res

    def compare(self, op, a, b):
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            x = self.U(self.R(a))
            if isinstance(x, Obj) and type(x) in (Obj, HDict, HList):
                m = self.mro_get(self.cls_of(x), '__ne__')
                if isinstance(m, Fn):
                    return self.call(m, [x, b], {})
            return not self.eq(a, b)
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else not r
        x, y = self.U(self.R(a)), self.U(self.R(b))
        if isinstance(x, (HSet, View)) and isinstance(y, (HSet, View)):
            lx, ly = self.new_set(self.iterate(x)), self.new_set(self.iterate(y))
            xs = all(self.find(ly, k) is not MISSING for k, _ in lx.ents.values())
            ys = all(self.find(lx, k) is not MISSING for k, _ in ly.ents.values())
            return {'LtE': xs, 'GtE': ys, 'Lt': xs and not ys, 'Gt': ys and not xs}[op]
        if isinstance(x, HList) and isinstance(y, HList):
            x, y = tuple(x.items), tuple(y.items)
        if isinstance(x, HList) or isinstance(y, HList) or isinstance(x, HDict) or isinstance(y, HDict):
            raise self.exc('TypeError', "'<' not supported")
        if isinstance(x, NT):
            x = x.items
        if isinstance(y, NT):
            y = y.items
        o = self.order(x, y)
        return {'Lt': o < 0, 'LtE': o <= 0, 'Gt': o > 0, 'GtE': o >= 0}[op]

    def is_(self, a, b):
        a, b = self.R(a), self.R(b)
        if isinstance(a, Proxy) or isinstance(b, Proxy):
            return a is b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and (y is None or isinstance(y, bool)):
                if y is None:
                    return self.has_kind(x, ['none'])
                if not self.has_kind(x, ['bool']):
                    return False
                return self.truth(x) == y
        if isinstance(a, CONST) and isinstance(b, CONST):
            return type(a) == type(b) and a == b
        if isinstance(a, Term) and isinstance(b, Term):
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if isinstance(a, Term) or isinstance(b, Term):
            if isinstance(a, Term) and isinstance(b, (int, str)) or isinstance(b, Term) and isinstance(a, (int, str)):
                return self.eq(a, b)
            return False
        return a is b

    def contains(self, c, x):
        c = self.U(self.R(c))
        if isinstance(c, Ext) and c.name in self.LIBVAL:
            c = self.LIBVAL[c.name]
        if isinstance(c, Obj) and c.cls is not None and not c.cls.builtin:
            m = self.mro_get(c.cls, '__contains__')
            if isinstance(m, Fn):
                return self.truth(self.call(m, [c, x], {}))
        if isinstance(c, HDict):
            return self.find(c, x) is not MISSING
        if isinstance(c, View):
            if c.what == 'keys':
                return self.find(c.d, x) is not MISSING
            return any(self.eq(v, x) for v in list(self.iterate(c)))
        if isinstance(c, HList):
            for v in list(c.items):
                if self.eq(v, x):
                    return True
            return False
        if isinstance(c, NT):
            c = c.items
        if isinstance(c, tuple):
            for v in c:
                if self.eq(v, x):
                    return True
            return False
        x = self.R(x)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, Term):
                if not self.has_kind(x, ['str']):
                    raise self.exc('TypeError', "'in <string>' requires string")
                if self.kinds(x) == STR and x.fresh:
                    return False
                return self.truth(T('contains', c, x, kinds=BOOL))
        if isinstance(c, bytes) and isinstance(x, (bytes, int)):
            return x in c
        if isinstance(c, Term):
            ks = self.kinds(c)
            if ks == STR and isinstance(x, str):
                if len(x) == 1 and self.free_of(c, x):
                    return False
                if c.op == 'cat' and any(isinstance(p, str) and x in p for p in c.args):
                    return True
            n = self.F.misc.get(('len', c))
            if n == 0:
                return False
            if ks == STR and isinstance(x, Term) and self.has_kind(x, ['str']):
                if self.same(c, x):
                    return True
                ps = list(c.args) if c.op == 'cat' else [c]
                xs = list(x.args) if x.op == 'cat' else [x]
                if any(all(self.same(a, b) for a, b in zip(ps[i:], xs)) for i in range(len(ps) - len(xs) + 1)):
                    return True
            return self.truth(T('contains', c, x, kinds=BOOL))
        if isinstance(c, NatIter):
            for v in self.iterate(c):
                if self.eq(v, x):
                    return True
            return False
        if isinstance(c, Obj):
            m = self.mro_get(self.cls_of(c), '__iter__')
            if m is not None:
                return any(self.eq(v, x) for v in self.iterate(c))
        raise self.exc('TypeError', 'argument of type %s is not iterable' % show(c))

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        if isinstance(n.slice, ast.Slice):
            return self.getslice(o, *self.slice_(n.slice, env))
        return self.getitem(o, self.ev(n.slice, env))

    def slice_(self, s, env):
        return tuple(self.R(self.ev(x, env)) if x is not None else None for x in (s.lower, s.upper, s.step))

    def getslice(self, o, lo, hi, st):
        o = self.U(self.R(o))
        if isinstance(o, NT):
            o = o.items
        if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            if isinstance(o, (str, bytes, tuple)):
                return o[lo:hi:st]
            if isinstance(o, HList):
                return self.new_list(o.items[lo:hi:st])
        if isinstance(o, Term) and self.kinds(o) == STR:
            return self.str_slice(o, lo, hi, st)
        if isinstance(o, str):
            return self.str_slice(o, lo, hi, st)
        if isinstance(o, Term):
            if 'none' in self.kinds(o) and self.has_kind(o, ['none']):
                raise self.exc('TypeError', 'NoneType is not subscriptable')
            if 'str' in self.kinds(o) and self.has_kind(o, ['str']):
                return self.str_slice(self.R(o), lo, hi, st)
            return T('slice', o, lo, hi, st, kinds=self.kinds(o))
        raise self.exc('TypeError', 'not sliceable: %s' % show(o))

    def str_slice(self, o, lo, hi, st):
        if lo in (None, 0) and hi is None and st in (None, 1):
            return o
        if isinstance(o, Term) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            c = self.cells(o)
            if c is not None:
                return self.mk_cat(*c[lo:hi:st])
        if isinstance(o, Term) and st is None:
            parts = list(o.args) if o.op == 'cat' else [o]
            # drop a prefix whose length is known symbolically
            if hi is None and lo is not None:
                r = self.drop_prefix(parts, lo)
                if r is not None:
                    return r
            if hi is not None and lo in (None, 0) and isinstance(hi, int) and hi < 0:
                k = -hi
                p = list(parts)
                while p and isinstance(p[-1], str) and k:
                    if len(p[-1]) > k:
                        p[-1] = p[-1][:-k]
                        k = 0
                    else:
                        k -= len(p[-1])
                        p.pop()
                if k == 0:
                    return self.mk_cat(*p)
            if lo in (None, 0) and hi is not None:
                # keep the first `hi` characters
                for i in range(len(parts) + 1):
                    ln = self.len_parts(parts[:i])
                    if self.same(ln, hi):
                        return self.mk_cat(*parts[:i])
                    if i < len(parts) and isinstance(parts[i], str):
                        d = self.mk_add(hi, self.mk_neg(ln))
                        if isinstance(d, int) and 0 <= d <= len(parts[i]) and not (isinstance(hi, int) and hi < 0):
                            return self.mk_cat(*(parts[:i] + [parts[i][:d]]))
                if isinstance(hi, int) and parts and isinstance(parts[0], str) and len(parts[0]) >= hi >= 0:
                    return parts[0][:hi]
        return T('slice', o, lo, hi, st, kinds=STR)

    def len_parts(self, parts):
        n = 0
        for p in parts:
            n = self.mk_add(n, len(p) if isinstance(p, str) else self.mk_len(p))
        return n

    def drop_prefix(self, parts, lo):
        for i in range(len(parts) + 1):
            ln = self.len_parts(parts[:i])
            if self.same(ln, lo):
                return self.mk_cat(*parts[i:])
            if i < len(parts) and isinstance(parts[i], str):
                # inside this constant?
                d = self.mk_add(lo, self.mk_neg(ln))
                if isinstance(d, int) and 0 <= d <= len(parts[i]):
                    return self.mk_cat(parts[i][d:], *parts[i + 1:])
        return None

    def getitem(self, o, k):
        o = self.U(self.R(o))
        k = self.R(k)
        if isinstance(o, Ext):
            if o.name in self.LIBVAL and not isinstance(self.LIBVAL[o.name], Ext):
                return self.getitem(self.LIBVAL[o.name], k)
            if o.name == 'sys.modules':
                m = self.modules.get(k) if isinstance(k, str) else None
                if m is None:
                    if self.F.misc.get('imp') == k:
                        return self.modules[k]
                    raise self.exc('KeyError', k)
                return m
            raise Unsupported('subscript of external %s' % o.name)
        if isinstance(o, Obj) and o.cls is not None and not o.cls.builtin and type(o) in (Obj, HDict, HList):
            m = self.mro_get(o.cls, '__getitem__')
            if isinstance(m, Fn):
                return self.call(m, [o, k], {})
        if isinstance(o, HSet):
            raise self.exc('TypeError', 'set is not subscriptable')
        if isinstance(o, HDict):
            f, v = self.dget(o, k)
            if not f:
                if o.cls is not None and o.cls.name == 'defaultdict' and 'factory' in o.attrs:
                    v = self.call(o.attrs['factory'], [], {})
                    self.dset(o, k, v)
                    return v
                raise self.exc('KeyError', k)
            return v
        if isinstance(o, NT):
            o = o.items
        if isinstance(o, HList):
            if isinstance(k, int):
                try:
                    return o.items[k]
                except IndexError:
                    raise self.exc('IndexError', 'list index out of range')
            if isinstance(k, str) or k is None:
                raise self.exc('TypeError', 'list indices must be integers')
            # symbolic index
            for i, v in enumerate(o.items):
                if self.order(k, i) == 0:
                    return v
            raise self.exc('IndexError', 'list index out of range')
        if isinstance(o, (tuple, str, bytes)):
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise self.exc('IndexError', 'index out of range')
            if isinstance(k, (str,)):
                raise self.exc('TypeError', 'indices must be integers')
            if isinstance(o, tuple):
                for i, v in enumerate(o):
                    if self.order(k, i) == 0:
                        return v
                raise self.exc('IndexError', 'index out of range')
        if isinstance(o, Term):
            ks = self.kinds(o)
            if 'none' in ks and self.has_kind(o, ['none']):
                raise self.exc('TypeError', 'NoneType is not subscriptable')
            if ks & NUMERIC and self.has_kind(o, NUMERIC):
                raise self.exc('TypeError', 'number is not subscriptable')
            ks = self.kinds(o)
            if ks == STR:
                if isinstance(k, int):
                    c = self.cells(o)
                    if c is not None:
                        if not -len(c) <= k < len(c):
                            raise self.exc('IndexError', 'string index out of range')
                        return c[k]
                    if o.op == 'cat':
                        if k >= 0 and isinstance(o.args[0], str) and len(o.args[0]) > k:
                            return o.args[0][k]
                        if k < 0 and isinstance(o.args[-1], str) and len(o.args[-1]) >= -k:
                            return o.args[-1][k]
                    if k in (0, -1):
                        if not self.truth(o):
                            raise self.exc('IndexError', 'string index out of range')
                    t = T('char', o, k, kinds=STR)
                    self.F.misc.setdefault(('len', t), 1)
                    self.F.truth.setdefault(t, True)
                    return t
                return T('getitem', o, k, kinds=STR)
            if ('entries', o) in self.F.misc:
                pass
            h = self.TERM_ITEM.get(o.op)
            if h is not None:
                r = h(self, o, k)
                if r is not MISSING:
                    return r
            if ks <= frozenset(['dict', 'obj', 'list', 'tuple']):
                if isinstance(k, str) or self.kinds(k) == STR:
                    if self.catches('KeyError'):
                        if not self.truth(T('contains', o, k, kinds=BOOL)):
                            raise self.exc('KeyError', k)
            return self.R(T('item' if isinstance(k, int) else 'getitem', o, k))
        if isinstance(o, Obj):
            m = self.mro_get(self.cls_of(o), '__getitem__')
            if m is not None:
                return self.call(m, [o, k], {})
        raise self.exc('TypeError', '%s is not subscriptable' % show(o))

    def setitem(self, o, k, v):
        o = self.U(self.R(o))
        k = self.R(k)
        if isinstance(o, Obj) and o.cls is not None and not o.cls.builtin:
            m = self.mro_get(o.cls, '__setitem__')
            if isinstance(m, Fn):
                self.call(m, [o, k, v], {})
                return
        if isinstance(o, HSet):
            raise self.exc('TypeError', 'set does not support item assignment')
        if isinstance(o, HDict):
            self.dset(o, k, v)
            return
        if isinstance(o, HList):
            if not isinstance(k, int):
                raise Unsupported('symbolic list index store')
            if not -len(o.items) <= k < len(o.items):
                raise self.exc('IndexError', 'list assignment index out of range')
            self.touch(o)
            o.items[k] = v
            return
        if isinstance(o, Term):
            self.event('setitem', [o, k, v], {})
            return
        raise self.exc('TypeError', '%s does not support item assignment' % show(o))

    def setslice(self, o, sl, v):
        o = self.U(self.R(o))
        if isinstance(o, HList) and all(x is None or isinstance(x, int) for x in sl):
            vals = list(self.iterate(v))
            self.touch(o)
            o.items[slice(*sl)] = vals
            return
        raise Unsupported('slice assignment')

    def delitem(self, o, k):
        o = self.U(self.R(o))
        k = self.R(k)
        if isinstance(o, Obj) and o.cls is not None and not o.cls.builtin:
            m = self.mro_get(o.cls, '__delitem__')
            if isinstance(m, Fn):
                self.call(m, [o, k], {})
                return
        if isinstance(o, HDict):
            h = self.find(o, k)
            if h is MISSING:
                raise self.exc('KeyError', k)
            self.ddel(o, h)
            return
        if isinstance(o, HList) and isinstance(k, int):
            if not -len(o.items) <= k < len(o.items):
                raise self.exc('IndexError', 'index out of range')
            self.touch(o)
            del o.items[k]
            return
        if isinstance(o, Term):
            self.event('delitem', [o, k], {})
            return
        raise Unsupported('del item of %s' % show(o))

    # calls ------------------------------------------------------------
    def e_Call(self, n, env):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id == 'super' and not n.args:
            f = self.stack[-1].fn
            owner = f.owner if f is not None else None
            if not isinstance(owner, Cls):
                raise Unsupported('zero-argument super')
            first = self.stack[-1].env.vars[f.node.args.args[0].arg]
            return Super(owner, first)
        if isinstance(fn, ast.Name) and fn.id == 'locals' and not n.args:
            return self.new_dict((k, v) for k, v in env.vars.items() if not k.startswith('@'))
        if isinstance(fn, ast.Name) and fn.id == 'globals' and not n.args:
            return self.new_dict(env.mod.ns.items())
        f = self.ev(fn, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.U(self.R(self.ev(k.value, env)))
                if isinstance(d, HDict):
                    for kk, vv in d.ents.values():
                        kw[self.R(kk)] = vv
                elif isinstance(d, Term):
                    kw['**'] = d
                else:
                    for kk in list(self.iterate(self.call(self.getattr_(d, 'keys'), [], {}))):
                        kw[self.R(kk)] = self.getitem(d, kk)
            else:
                kw[k.arg] = self.ev(k.value, env)
        fr = self.stack[-1]
        fr.line = n.lineno
        return self.call(f, args, kw)

    # comprehensions -----------------------------------------------------
    def comp(self, gens, i, env):
        if i == len(gens):
            yield env
            return
        g = gens[i]
        k = 0
        for v in self.iterate(self.ev(g.iter, env)):
            k += 1
            if k > self.MAXLOOP:
                raise Diverged('comprehension at %s' % self.loc())
            self.assign(g.target, v, env)
            ok = True
            for c in g.ifs:
                if not self.truth(self.ev(c, env)):
                    ok = False
                    break
            if ok:
                for e in self.comp(gens, i + 1, env):
                    yield e

    def cenv(self, env):
        e = Env('func', env, env.mod)
        return e

    def e_ListComp(self, n, env):
        e = self.cenv(env)
        return self.new_list([self.ev(n.elt, x) for x in self.comp(n.generators, 0, e)])

    def e_SetComp(self, n, env):
        e = self.cenv(env)
        return self.new_set([self.ev(n.elt, x) for x in self.comp(n.generators, 0, e)])

    def e_DictComp(self, n, env):
        e = self.cenv(env)
        d = self.new_dict()
        for x in self.comp(n.generators, 0, e):
            k = self.ev(n.key, x)
            self.dset(d, k, self.ev(n.value, x))
        return d

    def e_GeneratorExp(self, n, env):
        e = self.cenv(env)
        # the outermost iterable is evaluated eagerly
        first = self.ev(n.generators[0].iter, env)
        it0 = self.iterate(first)

        def gen():
            g = n.generators[0]
            for v in it0:
                self.assign(g.target, v, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    for x in self.comp(n.generators, 1, e):
                        yield self.ev(n.elt, x)
        return NatIter(gen(), 'generator')

    def e_Yield(self, n, env):
        y = self.find_yield(env)
        return y(self.ev(n.value, env) if n.value is not None else None)

    def find_yield(self, env):
        e = env
        while e is not None:
            if '@yield' in e.vars:
                return e.vars['@yield']
            e = e.parent
        raise Unsupported('yield outside generator')

    def e_YieldFrom(self, n, env):
        y = self.find_yield(env)
        for v in self.iterate(self.ev(n.value, env)):
            y(v)
        return None

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.R(self.ev(v.value, env))
                if v.conversion == 114:
                    parts.append(repr(x) if is_const(x) else T('repr', x, kinds=STR))
                elif v.format_spec is not None:
                    spec = self.ev(v.format_spec, env)
                    parts.append(format(x, spec) if is_const(x) else T('fmt', x, spec, kinds=STR))
                else:
                    parts.append(self.mk_str(x))
        return self.mk_cat(*parts)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Starred(self, n, env):
        raise Unsupported('starred')

    # iteration --------------------------------------------------------
    def iterate(self, v):
        v = self.R(v)
        v = self.U(v)
        if isinstance(v, Ext) and v.name in self.LIBVAL:
            v = self.LIBVAL[v.name]
        if isinstance(v, Obj) and v.cls is not None and not v.cls.builtin and type(v) in (Obj, HDict, HList, HSet):
            m = self.mro_get(v.cls, '__iter__')
            if isinstance(m, Fn):
                return self.iterate(self.call(m, [v], {}))
            n = self.mro_get(v.cls, '__next__')
            if isinstance(n, Fn):
                return self.it_next(v, n)
            if type(v) is Obj and m is None:
                raise self.exc('TypeError', '%s is not iterable' % show(v))
        if isinstance(v, HDict):
            return self.it_dict(v, 'keys')
        if isinstance(v, HList):
            return self.it_list(v)
        if isinstance(v, (tuple, str)):
            return iter(v)
        if isinstance(v, bytes):
            return iter(v)
        if isinstance(v, NT):
            return iter(v.items)
        if isinstance(v, NatIter):
            return iter(v.it)
        if isinstance(v, View):
            return self.it_dict(v.d, v.what)
        if isinstance(v, Term):
            return self.it_term(v)
        raise self.exc('TypeError', '%s is not iterable' % show(v))

    def it_next(self, v, n):
        while True:
            try:
                x = self.call(n, [v], {})
            except Raised as e:
                if e.obj.cls.name == 'StopIteration':
                    return
                raise
            yield x

    def it_list(self, v):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1

    def it_dict(self, d, what):
        n = len(d.ents)
        for h in list(d.ents):
            if len(d.ents) != n:
                raise self.exc('RuntimeError', 'dictionary changed size during iteration')
            e = d.ents.get(h)
            if e is None:
                raise self.exc('RuntimeError', 'dictionary keys changed during iteration')
            yield e[0] if what == 'keys' else e[1] if what == 'values' else e
        if len(d.ents) != n:
            raise self.exc('RuntimeError', 'dictionary changed size during iteration')

    SYMLEN = (0, 1, 2)

    def it_term(self, v):
        h = self.TERM_ITER.get(v.op)
        if h is not None:
            r = h(self, v)
            if r is not None:
                return iter(r)
        ks = self.kinds(v)
        bad = ks & frozenset(['none', 'bool', 'int', 'float', 'date', 'datetime', 'uuid'])
        if bad and self.has_kind(v, bad):
            raise self.exc('TypeError', 'object is not iterable')
        v = self.R(v)
        if not isinstance(v, Term):
            return self.iterate(v)
        n = self.F.misc.get(('len', v))
        if n is None and v.op == 'item' and isinstance(v.args[0], Term) and self.kinds(v.args[0]) <= STR and self.kinds(v) <= STR:
            return iter([v])
        if n is None:
            opts = list(self.SYMLEN)
            if self.F.truth.get(v) is True:
                opts = [x for x in opts if x > 0]
            lt = T('len', v, kinds=INT)
            opts = [x for x in opts if self.order_possible(lt, x, 0)]
            if not opts:
                lo = self.rng_of(lt)[0]
                raise Unsupported('iteration over %s with length beyond the unrolling bound' % show(v))
            n = self.split(opts, 'len(%s)' % show(v))
            self.F.misc[('len', v)] = n
            self.F.truth[v] = n > 0
        if self.kinds(v) <= DICT:
            return iter([T('key', v, i) for i in range(n)])
        return iter([self.R(T('item', v, i, kinds=STR if self.kinds(v) <= STR else ALLK)) for i in range(n)])

    # ------------------------------------------------------------ path driver
    def end_path(self):
        for g in self.live_gens:
            try:
                g.close()
            except BaseException:
                pass
        self.live_gens = []
        del self.stack[:]
        del self.handlers[:]
        del self.excs[:]
