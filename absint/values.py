"""Abstract values.

Python immutables stand for themselves.  `Term` is an element of the value-provenance
domain: an uninterpreted operator applied to abstract values (a value number).  `Obj`
and its subclasses are abstract heap objects (allocation-site instances).
"""

ALLK = frozenset(['none', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'dict',
                  'tuple', 'set', 'date', 'datetime', 'uuid', 'obj'])
STR = frozenset(['str'])
BOOL = frozenset(['bool'])
INT = frozenset(['int'])
NUM = frozenset(['int', 'float'])
BYTES = frozenset(['bytes'])
OBJ = frozenset(['obj'])
LIST = frozenset(['list'])
DICT = frozenset(['dict'])
NUMERIC = frozenset(['bool', 'int', 'float'])
SIZED = frozenset(['str', 'bytes', 'list', 'dict', 'tuple', 'set'])


class Unsupported(Exception):
    """a construct outside the interpreter's fragment: the path is inconclusive"""


class Raised(Exception):
    """an interpreted exception"""
    def __init__(self, obj):
        self.obj = obj
        self.site = None


class Diverged(Exception):
    """loop / recursion budget exceeded on this path"""


class Infeasible(Exception):
    """path cut by an assumption of the scenario"""


def ckey(a):
    if isinstance(a, (Term, Obj)):
        return a
    if isinstance(a, tuple):
        return ('t',) + tuple(ckey(x) for x in a)
    return (type(a).__name__, a)


class Term(object):
    __slots__ = ('op', 'args', 'kinds', 'fresh', 'nochars', 'ascii', 'note', 'n')
    _tab = {}

    def __repr__(self):
        return show(self)


def T(op, *args, **kw):
    kinds = kw.pop('kinds', ALLK)
    k = (op, tuple(ckey(a) for a in args))
    t = Term._tab.get(k)
    if t is None:
        t = Term()
        t.n = len(Term._tab)
        t.op = op
        t.args = args
        t.kinds = kinds
        t.fresh = False
        t.nochars = ''
        t.ascii = False
        t.note = None
        Term._tab[k] = t
    for a, v in kw.items():
        setattr(t, a, v)
    return t


class Obj(object):
    __slots__ = ('cls', 'attrs', 'epoch', 'label', 'site')

    def __init__(self, cls=None, epoch=0):
        self.cls = cls
        self.attrs = {}
        self.epoch = epoch
        self.label = None
        self.site = None

    def save(self):
        return (self.cls, dict(self.attrs))

    def restore(self, st):
        self.cls, self.attrs = st

    def __repr__(self):
        return show(self)


class HList(Obj):
    __slots__ = ('items',)

    def __init__(self, items=(), cls=None, epoch=0):
        Obj.__init__(self, cls, epoch)
        self.items = list(items)

    def save(self):
        return (self.cls, dict(self.attrs), list(self.items))

    def restore(self, st):
        self.cls, self.attrs, self.items = st


class HDict(Obj):
    __slots__ = ('ents', 'nsym')

    def __init__(self, cls=None, epoch=0):
        Obj.__init__(self, cls, epoch)
        self.ents = {}
        self.nsym = 0

    def save(self):
        return (self.cls, dict(self.attrs), dict(self.ents), self.nsym)

    def restore(self, st):
        self.cls, self.attrs, self.ents, self.nsym = st


class HSet(HDict):
    __slots__ = ()


class Cls(Obj):
    __slots__ = ('name', 'bases', 'ns', 'mro', 'module', 'builtin', 'node')

    def __init__(self, name, bases, ns, meta=None, epoch=0):
        Obj.__init__(self, meta, epoch)
        self.name = name
        self.bases = bases
        self.ns = ns
        self.mro = None
        self.module = None
        self.builtin = False
        self.node = None

    def save(self):
        return (self.cls, dict(self.attrs), dict(self.ns))

    def restore(self, st):
        self.cls, self.attrs, self.ns = st


class Fn(Obj):
    __slots__ = ('node', 'name', 'defaults', 'kwdefaults', 'env', 'mod', 'params', 'isgen',
                 'locals_', 'owner')


class Builtin(Obj):
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn, cls=None):
        Obj.__init__(self, cls)
        self.name = name
        self.fn = fn


class BoundM(Obj):
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        Obj.__init__(self, None)
        self.func = func
        self.self_ = self_


class Wrap(Obj):
    """property / staticmethod / classmethod descriptors"""
    __slots__ = ('kind', 'f', 'fset', 'fdel')

    def __init__(self, kind, f, fset=None, fdel=None):
        Obj.__init__(self, None)
        self.kind, self.f, self.fset, self.fdel = kind, f, fset, fdel


class Mod(Obj):
    __slots__ = ('name', 'path', 'ns', 'tree', 'loaded', 'is_pkg')

    def __init__(self, name, path):
        Obj.__init__(self, None)
        self.name, self.path = name, path
        self.ns = {}
        self.tree = None
        self.loaded = False
        self.is_pkg = False

    def save(self):
        return (self.cls, dict(self.attrs), dict(self.ns))

    def restore(self, st):
        self.cls, self.attrs, self.ns = st


class Proxy(Obj):
    __slots__ = ('ref',)

    def __init__(self, ref):
        Obj.__init__(self, None)
        self.ref = ref


class NatIter(Obj):
    """iterator backed by a native generator over abstract values"""
    __slots__ = ('it', 'what', 'live')

    def __init__(self, it, what='iterator'):
        Obj.__init__(self, None)
        self.it = it
        self.what = what
        self.live = None


class View(Obj):
    __slots__ = ('d', 'what')

    def __init__(self, d, what):
        Obj.__init__(self, None)
        self.d, self.what = d, what


class NT(Obj):
    """named-tuple like record (urlparse results, sys.version_info)"""
    __slots__ = ('items', 'fields')

    def __init__(self, items, fields):
        Obj.__init__(self, None)
        self.items = tuple(items)
        self.fields = fields


class Ext(Obj):
    """a name outside the repository (module, class or function), by dotted path"""
    __slots__ = ('name',)

    def __init__(self, name):
        Obj.__init__(self, None)
        self.name = name


class Super(Obj):
    __slots__ = ('start', 'self_')

    def __init__(self, start, self_):
        Obj.__init__(self, None)
        self.start, self.self_ = start, self_


class WithMeta(Obj):
    __slots__ = ('meta', 'bases')

    def __init__(self, meta, bases):
        Obj.__init__(self, None)
        self.meta, self.bases = meta, bases


class Handle(Obj):
    """opened resource"""
    __slots__ = ('name', 'closed', 'args', 'content')

    def __init__(self, name, args, epoch=0):
        Obj.__init__(self, None, epoch)
        self.name, self.args = name, args
        self.closed = False
        self.content = None

    def save(self):
        return (self.cls, dict(self.attrs), self.closed)

    def restore(self, st):
        self.cls, self.attrs, self.closed = st


class Buf(Obj):
    """io.BytesIO / StringIO: a list of written parts"""
    __slots__ = ('parts', 'isbytes')

    def __init__(self, isbytes, epoch=0):
        Obj.__init__(self, None, epoch)
        self.parts = []
        self.isbytes = isbytes

    def save(self):
        return (self.cls, dict(self.attrs), list(self.parts))

    def restore(self, st):
        self.cls, self.attrs, self.parts = st


class Event(object):
    __slots__ = ('name', 'args', 'kw', 'res', 'loc', 'snap')

    def __init__(self, name, args, kw, res, loc, snap):
        self.name, self.args, self.kw, self.res, self.loc, self.snap = name, args, kw, res, loc, snap

    def __repr__(self):
        return 'Event(%s %r %r)' % (self.name, self.args, self.kw)


def kind_of(v):
    if v is None:
        return 'none'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, bytes):
        return 'bytes'
    if isinstance(v, tuple) or isinstance(v, NT):
        return 'tuple'
    if isinstance(v, HSet):
        return 'set'
    if isinstance(v, HDict):
        return 'dict'
    if isinstance(v, HList):
        return 'list'
    return 'obj'


CONST = (type(None), bool, int, float, str, bytes)


def is_const(v):
    return isinstance(v, CONST) or v is Ellipsis


def all_const(vs):
    for v in vs:
        if isinstance(v, tuple):
            if not all_const(v):
                return False
        elif not is_const(v):
            return False
    return True


def show(v, depth=0):
    if depth > 5:
        return '...'
    d = depth + 1
    if isinstance(v, Term):
        if v.op in ('sym',):
            return str(v.args[0])
        if v.op == 'cat':
            return '(' + ' + '.join(show(a, d) for a in v.args) + ')'
        if v.op == 'item' or v.op == 'getitem':
            return '%s[%s]' % (show(v.args[0], d), show(v.args[1], d))
        if v.op == 'attr':
            return '%s.%s' % (show(v.args[0], d), v.args[1])
        return '%s(%s)' % (v.op, ', '.join(show(a, d) for a in v.args))
    if isinstance(v, HSet):
        return '{%s}' % ', '.join(show(k, d) for k, _ in v.ents.values())
    if isinstance(v, HDict):
        s = '{%s}' % ', '.join('%s: %s' % (show(k, d), show(x, d)) for k, x in v.ents.values())
        return s if v.cls is None or v.cls.builtin else '<%s %s>' % (v.cls.name, s)
    if isinstance(v, HList):
        return '[%s]' % ', '.join(show(k, d) for k in v.items)
    if isinstance(v, tuple):
        return '(%s%s)' % (', '.join(show(k, d) for k in v), ',' if len(v) == 1 else '')
    if isinstance(v, NT):
        return show(v.items, d)
    if isinstance(v, Cls):
        return '<class %s>' % v.name
    if isinstance(v, Fn):
        return '<function %s>' % v.name
    if isinstance(v, Builtin):
        return '<builtin %s>' % v.name
    if isinstance(v, BoundM):
        return '<bound %s>' % show(v.func, d)
    if isinstance(v, Proxy):
        return '<proxy %s>' % show(v.ref, d)
    if isinstance(v, Ext):
        return v.name
    if isinstance(v, Mod):
        return '<module %s>' % v.name
    if isinstance(v, Handle):
        return '<handle %s(%s)>' % (v.name, ', '.join(show(a, d) for a in v.args))
    if isinstance(v, Buf):
        return '<buffer>'
    if isinstance(v, (NatIter, View)):
        return '<%s>' % v.what
    if isinstance(v, Obj):
        if v.label:
            return '<%s>' % v.label
        n = v.cls.name if v.cls else type(v).__name__
        a = v.attrs.get('args')
        if a is not None:
            return '%s%s' % (n, show(a, d))
        return '<%s object>' % n
    return repr(v)
