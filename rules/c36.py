"""Failures.  Queries over every module: each name, module attribute, attribute of self, raised value, message and call is resolved
and has to exist, to be an exception that can be built, to have the fields its template asks for, and to bind to the function's
parameters; handlers for everything have to end by raising.  The interpreter then drives the wrong uses and bad data of a table
through the public entry points (each `raise` of the package is followed up, unreached ones are reported), and the scenarios of C34
with failures injected into libraries: what comes out has to be the documented exception, or the failure itself."""
import ast
import builtins as _b
import string

from absint import struct
from .common import *
from . import c13, c34

PY2 = {'unicode', 'basestring', 'long', 'xrange', 'unichr', 'raw_input', 'reduce', 'file', 'execfile', 'reload', 'cmp'}
MODVARS = {'__name__', '__file__', '__doc__', '__package__', '__path__', '__spec__', '__loader__', '__builtins__', '__dict__'}


class Names(object):
    """names, attributes, raised values, messages, calls and handlers of the package"""

    def __init__(self, run):
        self.mods = struct.load(run.root)
        self.bad = []
        self.n = {}
        self.top = {k: self.toplevel(m) for k, m in self.mods.items()}
        self.classes = {}      # dotted -> (module, ClassDef)
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.ClassDef) and not struct.scopes(x):
                    outer = struct.parent_class(x)
                    self.classes[m.name + '.' + (outer.name + '.' if outer is not None else '') + x.name] = (m, x)

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def no(self, m, n, rule, msg):
        w = struct.where(m, n)
        self.bad.append((w, rule, '%s in %s' % (msg, w.split('(')[-1].rstrip(')'))))

    def toplevel(self, m, seen=()):
        """names of the module's scope"""
        out = set(MODVARS)
        todo = list(m.tree.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if a.name == '*':
                        src = self.absolute(m, n)
                        if src in self.mods and src not in seen:
                            out |= {x for x in self.toplevel(self.mods[src], seen + (m.name,)) if not x.startswith('_')}
                        elif src not in self.mods:
                            out.add('*')
                    else:
                        out.add((a.asname or a.name).split('.')[0])
            todo.extend(ast.iter_child_nodes(n))
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                out.update(x.names)
        return out

    def absolute(self, m, n):
        src = n.module or ''
        if n.level:
            parts = m.name.split('.')
            up = parts if m.is_pkg else parts[:-1]
            up = up[:len(up) - (n.level - 1)]
            src = '.'.join(up + ([src] if src else []))
        return src

    # names ------------------------------------------------------------------------------------------------
    def names(self, run):
        for m in self.mods.values():
            if '*' in self.top[m.name]:
                continue
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    self.count('names')
                    if not self.known(m, x):
                        self.no(m, x, 'names', 'the name %s does not exist' % x.id)
            for f in ast.walk(m.tree):
                if isinstance(f, ast.FunctionDef):
                    self.assigned(m, f)
        return self.done('names')

    def known(self, m, x):
        i = x.id
        if i in self.top[m.name] or hasattr(_b, i) or i in PY2:
            return True
        u, inside = x, False
        while hasattr(u, 'up'):
            c, u = u, u.up
            inside = inside or isinstance(u, ast.Lambda) and c is u.body or isinstance(u, ast.FunctionDef) and any(c is y for y in u.body)
            if isinstance(u, (ast.FunctionDef, ast.Lambda)):
                # what surrounds a function (decorators, defaults) is not inside
                if i in struct.bound(u) and (isinstance(u, ast.Lambda) and c is u.body or isinstance(u, ast.FunctionDef) and any(c is y for y in u.body)):
                    return True
                if i == '__class__':
                    return True
            elif isinstance(u, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if any(isinstance(y, ast.Name) and y.id == i for g in u.generators for y in ast.walk(g.target)):
                    return True
            elif isinstance(u, ast.ClassDef) and any(c is y for y in u.body):
                # the class scope is seen by its own statements only, not inside its functions
                if not inside and (i in struct.names_bound(ast.Module(u.body, [])) or i in ('__module__', '__qualname__')):
                    return True
        return False

    def assigned(self, m, f):
        """uses of local names before any assignment to them can have happened"""
        b = {k for k, v in struct.bound(f).items() if all(x != 'param' for x, _ in v)}
        outer = set()
        for x in ast.walk(f):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                outer.update(x.names)
        b -= outer
        # names bound by comprehensions only are not locals
        comp = set()
        for x in ast.walk(f):
            if isinstance(x, ast.comprehension):
                comp |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        b = {k for k in b if k not in comp}
        if not b:
            return
        may = set()
        for st in f.body:
            self.flow(m, st, b, may)

    def flow(self, m, n, b, may):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            may.add(n.name)
            return
        if isinstance(n, (ast.For, ast.While)):
            # anything bound in the loop may have been bound in an earlier turn
            for f in ('iter', 'test'):
                if hasattr(n, f):
                    self.uses(m, getattr(n, f), b, may)
            may |= struct.names_bound(n)
            for st in n.body + n.orelse:
                self.flow(m, st, b, may)
            return
        if isinstance(n, (ast.If, ast.With, ast.Try)):
            if isinstance(n, ast.If):
                self.uses(m, n.test, b, may)
                l, r = set(may), set(may)
                for st in n.body:
                    self.flow(m, st, b, l)
                for st in n.orelse:
                    self.flow(m, st, b, r)
                may |= l | r
                return
            if isinstance(n, ast.With):
                for i in n.items:
                    self.uses(m, i.context_expr, b, may)
                    if i.optional_vars is not None:
                        may |= struct.names_bound(i.optional_vars)
                for st in n.body:
                    self.flow(m, st, b, may)
                return
            for st in n.body:
                self.flow(m, st, b, may)
            for h in n.handlers:
                l = set(may)
                if h.name:
                    l.add(h.name)
                for st in h.body:
                    self.flow(m, st, b, l)
                may |= l
            for st in n.orelse + n.finalbody:
                self.flow(m, st, b, may)
            return
        if isinstance(n, ast.Assign):
            self.uses(m, n.value, b, may)
        elif isinstance(n, ast.AugAssign):
            self.uses(m, n.value, b, may)
            if isinstance(n.target, ast.Name):
                self.use(m, n.target, b, may)
        self.uses(m, n, b, may) if not isinstance(n, (ast.Assign, ast.AugAssign)) else None
        may |= struct.names_bound(n)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            may |= {(a.asname or a.name).split('.')[0] for a in n.names}

    def uses(self, m, e, b, may):
        todo = [e]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                continue
            if isinstance(x, ast.NamedExpr):
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.use(m, x, b, may)
            todo.extend(ast.iter_child_nodes(x))

    def use(self, m, x, b, may):
        self.count('names')
        if x.id in b and x.id not in may:
            self.no(m, x, 'names', 'the name %s is used before anything is assigned to it' % x.id)

    def done(self, k):
        out, self.bad = self.bad, []
        return self.n.get(k, 0), sorted(set(out))

    # attributes -------------------------------------------------------------------------------------------
    def attributes(self, run):
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.ImportFrom):
                    src = self.absolute(m, x)
                    if src in self.mods:
                        for a in x.names:
                            self.count('attributes')
                            if a.name != '*' and a.name not in self.top[src] and '*' not in self.top[src] and src + '.' + a.name not in self.mods:
                                self.no(m, x, 'names', '%s has no %s' % (src, a.name))
                    elif src.split('.')[0] == 'pyswagger':
                        self.count('attributes')
                        self.no(m, x, 'names', 'there is no module %s' % src)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    d = struct.dotted(m, x.value)
                    if d in self.mods:
                        self.count('attributes')
                        if x.attr not in self.top[d] and '*' not in self.top[d] and d + '.' + x.attr not in self.mods:
                            self.no(m, x, 'names', '%s has no %s' % (d, x.attr))
                    elif d in self.classes:
                        names = self.members(d)
                        if names is not None:
                            self.count('attributes')
                            if x.attr not in names and self.mangled(x, x.attr) not in names:
                                self.no(m, x, 'names', 'the class %s has no %s' % (d, x.attr))
            for c in ast.walk(m.tree):
                if isinstance(c, ast.ClassDef):
                    self.of_self(m, c)
        return self.done('attributes')

    def mangled(self, n, attr):
        c = struct.parent_class(n)
        return '_%s%s' % (c.name.lstrip('_'), attr) if c is not None and attr.startswith('__') and not attr.endswith('__') else attr

    def lookup(self, m, e):
        d = struct.dotted(m, e)
        if d is None:
            return None
        for _ in range(5):
            if d in self.classes:
                return d
            mod, _, nm = d.rpartition('.')
            if mod in self.mods and nm in self.mods[mod].alias:
                d = self.mods[mod].alias[nm]
            else:
                return None

    def members(self, d, seen=()):
        """everything that instances and the class can have as an attribute; None when not known"""
        if d in seen:
            return set()
        m, c = self.classes[d]
        out = set(dir(type)) | {'__dict__'}
        for b in c.bases:
            if isinstance(b, ast.Call) and struct.dotted(m, b.func) == 'six.with_metaclass':
                for x in b.args[1:]:
                    bb = self.base(m, x, seen + (d,))
                    if bb is None:
                        return None
                    out |= bb
                continue
            bb = self.base(m, b, seen + (d,))
            if bb is None:
                return None
            out |= bb
        for x in c.decorator_list:
            return None
        for k in c.keywords:
            if k.arg != 'metaclass':
                return None
        for x in ast.walk(c):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.up is c:
                if x.name in ('__getattr__', '__getattribute__'):
                    return None
                out.add(self.own(c, x.name))
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and self.direct(x, c):
                out.add(self.own(c, x.id))
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(self.own(c, x.attr))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr':
                if len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and isinstance(x.args[1].value, str):
                    out.add(x.args[1].value)
                else:
                    return None
            elif isinstance(x, ast.Attribute) and x.attr == '__dict__' and not isinstance(x.up, (ast.For, ast.comprehension)):
                return None
        return out

    def base(self, m, e, seen):
        d = struct.dotted(m, e)
        if d and d.startswith('builtins.') and isinstance(getattr(_b, d[9:], None), type):
            return set(dir(getattr(_b, d[9:]))) | {'message'} if isinstance(getattr(_b, d[9:]), type) else None
        r = self.lookup(m, e)
        return self.members(r, seen) if r else None

    def own(self, c, n):
        return '_%s%s' % (c.name.lstrip('_'), n) if n.startswith('__') and not n.endswith('__') else n

    def direct(self, x, c):
        u = x
        while hasattr(u, 'up') and u is not c:
            u = u.up
            if isinstance(u, (ast.FunctionDef, ast.Lambda)):
                return False
        return True

    def of_self(self, m, c):
        d = next((k for k, v in self.classes.items() if v[1] is c), None)
        if d is None:
            return
        names = self.members(d)
        if names is None:
            return
        # what is assigned from outside or by classes derived from it
        for mm in self.mods.values():
            for x in ast.walk(mm.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    names.add(x.attr)
        for k, (mm, cc) in self.classes.items():
            if k != d and any(self.lookup(mm, b) == d for b in cc.bases):
                names |= {x.name for x in cc.body if isinstance(x, ast.FunctionDef)} | {y.id for x in cc.body if isinstance(x, ast.Assign) for y in x.targets if isinstance(y, ast.Name)}
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.args.args and not any(struct.dotted(m, q) == 'builtins.staticmethod' for q in f.decorator_list):
                me = f.args.args[0].arg
                if any(k != 'param' for k, _ in struct.bound(f).get(me, ())):
                    continue
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                        self.count('attributes')
                        if x.attr not in names and self.own(c, x.attr) not in names and not self.guarded(x):
                            self.no(m, x, 'names', '%s of class %s is never defined' % (x.attr, c.name))

    def guarded(self, x):
        u = x
        while hasattr(u, 'up'):
            u = u.up
            if isinstance(u, ast.Try) and u.handlers:
                return True
        return False

    # raised values ------------------------------------------------------------------------------------------
    def raised(self, run):
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if not isinstance(x, ast.Raise):
                    continue
                self.count('raise')
                e = x.exc
                if e is None:
                    if not any(isinstance(u, ast.ExceptHandler) for u in self.ups(x)) and not struct.scopes(x):
                        self.no(m, x, 'raise', 'nothing to raise again')
                    continue
                f = e.func if isinstance(e, ast.Call) else e
                if isinstance(f, ast.Name) and any(f.id in struct.bound(s) for s in struct.scopes(f)):
                    continue     # a caught or passed exception
                if isinstance(f, (ast.Constant, ast.JoinedStr, ast.Tuple, ast.List, ast.Dict, ast.BinOp)):
                    self.no(m, x, 'raise', 'what is raised is not an exception')
                    continue
                d = struct.dotted(m, f)
                if d is None:
                    continue
                if d.startswith('builtins.'):
                    v = getattr(_b, d[9:], None)
                    if v is None:
                        continue
                    if not (isinstance(v, type) and issubclass(v, BaseException)):
                        # a function may return an exception; a constant or another type is not one
                        self.no(m, x, 'raise', '%s is not an exception' % d[9:])
                    elif isinstance(e, ast.Call) and e.keywords and v.__init__ in (Exception.__init__, BaseException.__init__) and v not in (ImportError,):
                        self.no(m, x, 'raise', '%s takes no keyword arguments' % d[9:])
                    elif v.__name__ in ('UnicodeDecodeError', 'UnicodeEncodeError') and (not isinstance(e, ast.Call) or len(e.args) != 5):
                        self.no(m, x, 'raise', '%s needs five arguments' % d[9:])
                elif self.lookup(m, f):
                    r = self.exceptional(self.lookup(m, f))
                    if r is False:
                        self.no(m, x, 'raise', '%s is not an exception' % d)
                elif d in self.mods:
                    self.no(m, x, 'raise', 'the module %s is not an exception' % d)
        return self.done('raise')

    def ups(self, n):
        while hasattr(n, 'up'):
            n = n.up
            yield n

    def exceptional(self, d, seen=()):
        m, c = self.classes[d]
        out = False
        for b in c.bases:
            x = struct.dotted(m, b)
            r = self.lookup(m, b)
            if r and r not in seen:
                k = self.exceptional(r, seen + (d,))
            elif x and x.startswith('builtins.'):
                v = getattr(_b, x[9:], None)
                k = isinstance(v, type) and issubclass(v, BaseException)
            else:
                k = None
            if k or k is None:
                return k
        return out

    # messages -----------------------------------------------------------------------------------------------
    def messages(self, run):
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format' and isinstance(x.func.value, ast.Constant) and isinstance(x.func.value.value, str):
                    self.count('messages')
                    self.template(m, x)
                elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str):
                    self.count('messages')
                    self.percent(m, x)
                elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                    self.count('messages')
                    for a, o in ((x.left, x.right), (x.right, x.left)):
                        t = self.kind(m, a)
                        k = self.kind(m, o)
                        if t == 'str' and k not in (None, 'str'):
                            self.no(m, x, 'messages', 'a text%s and a value of type %s are added' % (' %r' % a.value if isinstance(a, ast.Constant) else '', k))
        return self.done('messages')

    def kind(self, m, e):
        """the type of an expression when it is plain"""
        if isinstance(e, ast.Constant):
            return type(e.value).__name__
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(e, ast.Tuple):
            return 'tuple'
        if isinstance(e, ast.JoinedStr):
            return 'str'
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.kind(m, e.left), self.kind(m, e.right)
            return 'str' if 'str' in (a, b) else a if a == b else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            return self.kind(m, e.left) if self.kind(m, e.left) == 'str' else None
        if isinstance(e, ast.Call):
            d = struct.dotted(m, e.func)
            if d in ('builtins.type', 'builtins.len', 'builtins.int', 'builtins.float', 'builtins.list', 'builtins.dict', 'builtins.set', 'builtins.tuple', 'builtins.bool', 'builtins.sorted', 'builtins.str', 'builtins.repr', 'builtins.id') and (d != 'builtins.type' or len(e.args) == 1):
                return {'len': 'int', 'sorted': 'list', 'repr': 'str', 'id': 'int'}.get(d[9:], d[9:])
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('format', 'join') and self.kind(m, e.func.value) == 'str':
                return 'str'
        return None

    def template(self, m, x):
        if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
            return
        try:
            fields = list(string.Formatter().parse(x.func.value.value))
        except ValueError as e:
            return self.no(m, x, 'messages', 'the template is broken: %s' % e)
        auto = 0
        todo = [(f, s) for _, f, s, _ in fields if f is not None]
        while todo:
            f, spec = todo.pop(0)
            if spec and '{' in spec:
                try:
                    todo[:0] = [(g, s) for _, g, s, _ in string.Formatter().parse(spec) if g is not None]
                except ValueError:
                    pass
            head = f.split('.')[0].split('[')[0]
            if head == '':
                head, auto = str(auto), auto + 1
            if head.isdigit():
                if int(head) >= len(x.args):
                    self.no(m, x, 'messages', 'the template asks for argument %s, there are %d' % (head, len(x.args)))
            elif head not in [k.arg for k in x.keywords]:
                self.no(m, x, 'messages', 'the template asks for %s, which is not given' % head)

    def percent(self, m, x):
        t = x.left.value
        n, i, named = 0, 0, False
        while i < len(t):
            if t[i] == '%':
                j = i + 1
                if j < len(t) and t[j] == '%':
                    i = j + 1
                    continue
                if j < len(t) and t[j] == '(':
                    named = True
                while j < len(t) and t[j] in '#0- +.123456789lhL*':
                    n += t[j] == '*'
                    j += 1
                n += 1
                if not named and (j >= len(t) or t[j] not in 'diouxXeEfFgGcrsa'):
                    return self.no(m, x, 'messages', 'the template is broken')
                i = j
            i += 1
        if named:
            return
        if isinstance(x.right, ast.Tuple):
            if not any(isinstance(e, ast.Starred) for e in x.right.elts) and len(x.right.elts) != n:
                self.no(m, x, 'messages', 'the template asks for %d values, there are %d' % (n, len(x.right.elts)))
        elif n > 1 and self.kind(m, x.right) not in (None, 'tuple') or n == 0 and self.kind(m, x.right) not in (None, 'tuple', 'dict'):
            self.no(m, x, 'messages', 'the template asks for %d values, there is one' % n)

    # calls --------------------------------------------------------------------------------------------------
    def calls(self, run):
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if not isinstance(x, ast.Call):
                    continue
                r = self.target(m, x)
                if r is None:
                    continue
                fn, skip, nm = r
                self.count('calls')
                why = self.binds(fn, x, skip)
                if why:
                    self.no(m, x, 'calls', 'the call of %s: %s' % (nm, why))
        return self.done('calls')

    def binds(self, fn, x, skip):
        a = fn.args
        pos = [y.arg for y in a.posonlyargs + a.args][skip:]
        npos = len(a.posonlyargs)
        req = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
        if any(isinstance(y, ast.Starred) for y in x.args) or any(k.arg is None for k in x.keywords):
            return None
        if len(x.args) > len(pos) and a.vararg is None:
            return 'it takes %d arguments, %d are given' % (len(pos), len(x.args))
        given = set(pos[:len(x.args)])
        for k in x.keywords:
            if k.arg in given:
                return '%s is given twice' % k.arg
            if k.arg in pos[max(0, npos - skip):] or k.arg in [y.arg for y in a.kwonlyargs]:
                given.add(k.arg)
            elif a.kwarg is None:
                return 'it takes no %s' % k.arg
        miss = [y for y in req if y not in given] + [y.arg for y, dflt in zip(a.kwonlyargs, a.kw_defaults) if dflt is None and y.arg not in given]
        if miss:
            return '%s is missing' % ', '.join(miss)

    def plainfn(self, fn):
        return not [q for q in fn.decorator_list if not (isinstance(q, ast.Name) and q.id in ('staticmethod', 'classmethod'))]

    def target(self, m, x):
        """(function, leading parameters already bound, name) of a call when it is certain"""
        f = x.func
        if isinstance(f, ast.Name):
            for s in struct.scopes(f):
                b = struct.bound(s).get(f.id)
                if b:
                    if len(b) == 1 and b[0][0] == 'def' and isinstance(b[0][1], ast.FunctionDef) and not b[0][1].decorator_list:
                        return b[0][1], 0, f.id
                    return None
        d = struct.dotted(m, f)
        if d and d.startswith('pyswagger.'):
            for _ in range(5):
                mod, _, nm = d.rpartition('.')
                if mod in self.mods and nm in self.mods[mod].alias and nm not in self.mods[mod].defs:
                    d = self.mods[mod].alias[nm]
            if mod in self.mods:
                fn = self.mods[mod].defs.get(nm)
                if isinstance(fn, ast.FunctionDef) and not fn.decorator_list and nm not in self.mods[mod].assigns:
                    return fn, 0, nm
            if d in self.classes:
                r = self.method(d, '__init__')
                if r and self.plainfn(r) and self.method(d, '__new__') is None and not self.meta(d):
                    return r, 1, nm
            if mod in self.classes:
                r = self.method(mod, nm)
                if r and self.plainfn(r):
                    kinds = [q.id for q in r.decorator_list]
                    if kinds:
                        return r, 1 if 'classmethod' in kinds else 0, nm
                    return r, 0, nm
            return None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            fns = struct.scopes(x)
            if not fns:
                return None
            outer = fns[-1]
            c = struct.parent_class(outer)
            if isinstance(outer, ast.FunctionDef) and c is not None and outer.args.args and outer.args.args[0].arg == f.value.id and outer.up is c \
                    and not any(f.value.id in struct.bound(s) for s in fns[:-1]) and all(k == 'param' for k, _ in struct.bound(outer)[f.value.id]) \
                    and not any(isinstance(q, ast.Name) and q.id == 'staticmethod' for q in outer.decorator_list):
                d = next((k for k, v in self.classes.items() if v[1] is c), None)
                if d is None:
                    return None
                r = self.method(d, f.attr)
                if r is None or not self.plainfn(r):
                    return None
                # redefined by a derived class, or replaced on the object
                for mm in self.mods.values():
                    for y in ast.walk(mm.tree):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == f.attr:
                            return None
                for k, (mm, cc) in self.classes.items():
                    if cc is not struct.parent_class(r) and any(isinstance(y, ast.FunctionDef) and y.name == f.attr for y in cc.body):
                        return None
                kinds = [q.id for q in r.decorator_list]
                incls = any(isinstance(q, ast.Name) and q.id == 'classmethod' for q in outer.decorator_list)
                if kinds == ['staticmethod']:
                    return r, 0, f.attr
                if incls and not kinds:
                    return None
                return r, 1, f.attr
        return None

    def meta(self, d):
        m, c = self.classes[d]
        return bool(c.keywords) or any(not isinstance(b, (ast.Name, ast.Attribute)) for b in c.bases) or any(self.lookup(m, b) and self.meta(self.lookup(m, b)) for b in c.bases)

    def method(self, d, n, seen=()):
        m, c = self.classes[d]
        for y in c.body:
            if isinstance(y, ast.FunctionDef) and y.name == n:
                return y
            if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in y.targets):
                return None
        for b in c.bases:
            r = self.lookup(m, b)
            if r and r != d and r not in seen:
                q = self.method(r, n, seen + (d,))
                if q is not None:
                    return q
        return None

    # handlers -----------------------------------------------------------------------------------------------
    def handlers(self, run):
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Try):
                    for h in x.handlers:
                        self.count('handlers')
                        if self.broad(m, h.type) and not self.raises(h.body):
                            self.no(m, h, 'swallowed', 'the handler takes every exception and does not raise')
                    for st in x.finalbody:
                        for y in self.leaves(st):
                            self.count('handlers')
                            self.no(m, y, 'swallowed', '%s inside finally drops the exception' % type(y).__name__.lower())
                elif isinstance(x, ast.Call) and struct.dotted(m, x.func) == 'contextlib.suppress':
                    self.count('handlers')
                    if any(self.broad(m, a) for a in x.args):
                        self.no(m, x, 'swallowed', 'every exception is suppressed')
                elif isinstance(x, ast.FunctionDef) and x.name == '__exit__':
                    self.count('handlers')
                    for y in ast.walk(x):
                        if isinstance(y, ast.Return) and isinstance(y.value, ast.Constant) and y.value.value:
                            if not any(isinstance(u, ast.If) for u in self.ups(y)):
                                self.no(m, y, 'swallowed', 'leaving the context drops every exception')
        return self.done('handlers')

    def broad(self, m, t):
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            return any(self.broad(m, x) for x in t.elts)
        return struct.dotted(m, t) in ('builtins.Exception', 'builtins.BaseException', 'builtins.StandardError')

    def raises(self, body):
        """does every way through the statements end by raising?"""
        for st in body:
            if isinstance(st, ast.Raise):
                return True
            if isinstance(st, ast.Return):
                return False
            if isinstance(st, ast.If) and st.orelse and self.raises(st.body) and self.raises(st.orelse):
                return True
            if isinstance(st, ast.If) and any(isinstance(y, (ast.Return, ast.Break, ast.Continue)) for y in ast.walk(st)):
                return False
            if isinstance(st, ast.With) and self.raises(st.body):
                return True
            if isinstance(st, ast.Try) and (self.raises(st.finalbody) or self.raises(st.body) and all(self.raises(h.body) for h in st.handlers)):
                return True
            if isinstance(st, (ast.Break, ast.Continue)):
                return False
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr in ('reraise', 'raise_from'):
                return True
        return False

    def leaves(self, st):
        todo = [(st, False)]
        while todo:
            n, inloop = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, ast.Return) or isinstance(n, (ast.Break, ast.Continue)) and not inloop:
                yield n
            for c in ast.iter_child_nodes(n):
                todo.append((c, inloop or isinstance(n, (ast.For, ast.While))))


ACCIDENTS = ('AttributeError', 'NameError', 'UnboundLocalError', 'IndexError', 'KeyError', 'TypeError', 'AssertionError', 'ZeroDivisionError', 'RecursionError', 'UnicodeDecodeError', 'UnicodeEncodeError', 'ImportError')


def reached(s):
    for w in s.I.raised_at:
        s.run.extra['raised ' + str(w)] = 1


def documented(s, o, *classes):
    """the outcome of a wrong use"""
    reached(s)
    s.check(not o.ok, 'silence', lambda: 'nothing is raised (%s), documented: %s' % (show(o.value), ' or '.join(classes)))
    if not o.ok:
        ok = o.is_exc(*classes)
        if ok and 'Exception' in classes:
            ok = not any(c.name in ACCIDENTS for c in o.exc.cls.mro)
        s.check(ok, 'documented', lambda: '%s is raised, documented: %s' % (show(o.exc), ' or '.join(classes)), o.site)


USES = []


def use(name, *classes, **kw):
    def deco(f):
        USES.append((name, classes, f, kw))
        return f
    return deco


# documents and applications ----------------------------------------------------------------------------------
def load(s, d, url=URL, **kw):
    g = s.must('pyswagger.getter:DictGetter', s.list(url), s.dict((url, s.obj(d) if isinstance(d, (dict, list)) else d)))
    return s.call(s.attr(s.get('pyswagger.core:App'), 'load'), url, getter=g, **kw)


def defined(s, src):
    return s.attr(s.client(src).value, 'v')


@use('no version', 'NotImplementedError')
def _(s):
    d = doc()
    del d['swagger']
    return load(s, d)


@use('unsupported version', 'NotImplementedError')
def _(s):
    d = doc(swagger=s.choice('version', '3.0', '1.1', ''))
    if s.choice('field', 'swagger', 'swaggerVersion') != 'swagger':
        d['swaggerVersion'] = d.pop('swagger')
    return load(s, d)


@use('only a part of a document', 'NotImplementedError')
def _(s):
    """a document without version, loaded as a part of an unknown version"""
    if s.choice('parser', 'none', 'versionless') == 'none':
        return load(s, {'type': 'string'})
    return load(s, {'name': 'x'}, parser=defined(s, '''
from pyswagger.spec.base import Context, BaseObj
class O(BaseObj):
    __swagger_version__ = '9'
    __swagger_fields__ = {'name': None}
class v(Context):
    __swagger_ref_object__ = O
'''))


@use('a hook and a resolver', 'ValueError')
def _(s):
    f = Builtin('hook', lambda I, a, kw: a[0])
    r = s.must('pyswagger.resolve:Resolver')
    return s.call(s.attr(s.get('pyswagger.core:App'), 'load'), URL, url_load_hook=f, resolver=r)


@use('an url without anything', 'ValueError')
def _(s):
    return s.call(s.attr(s.get('pyswagger.core:App'), s.choice('how', 'load', 'create')), s.choice('url', '//h.com', '//h.com/a.json', '?q', '#f', '//'))


@use('a document that is no mapping', 'NotImplementedError', 'Exception')
def _(s):
    return load(s, s.choice('doc', 'null', '[]', '5', 'text', ''))


@use('invalid document', 'ValidationError')
def _(s):
    app = app_of(s, doc(definitions={'M': {'type': 'object', 'required': ['p'], 'properties': {'p': {'type': 'string', 'readOnly': True}}}}), prepare=False)
    return s.meth(app, s.choice('call', 'prepare', 'validate'))


@use('recursive model', 'CycleDetectionError')
def _(s):
    n = name(s, 'M')
    app = app_of(s, doc(definitions={n: {'type': 'object', 'properties': {'p': {'$ref': s.cat('#/definitions/', n)}}}}), prepare=False)
    return s.meth(app, 'prepare')


@use('reference to nothing', 'ValueError', 'Exception')
def _(s):
    app = app_of(s, doc(definitions={'M': {'$ref': s.choice('ref', '#/definitions/N', '#/nowhere', '#/paths/~1x', '#/info/M', '#/schemes/7', '#/schemes/x')}}), prepare=False)
    return s.meth(app, 'prepare')


@use('reference to another kind', 'TypeError')
def _(s):
    w = s.choice('what', 'schema', 'parameter', 'response', 'path item')
    if w == 'schema':
        d = doc(definitions={'M': {'$ref': '#/parameters/P'}}, parameters={'P': {'name': 'p', 'in': 'query', 'type': 'string'}})
    elif w == 'parameter':
        d = opdoc([{'$ref': '#/definitions/M'}], root={'definitions': {'M': {'type': 'string'}}})
    elif w == 'response':
        d = opdoc([], root={'definitions': {'M': {'type': 'string'}}}, responses={'200': {'$ref': '#/definitions/M'}})
    else:
        d = doc({'/a': {'$ref': '#/definitions/M'}}, definitions={'M': {'type': 'string'}})
    app = app_of(s, d, prepare=False)
    return s.meth(app, 'prepare', False)


@use('operations of one name', 'SchemaError')
def _(s):
    o = lambda: {'operationId': 'same', 'tags': ['t'], 'responses': resp()}
    app = app_of(s, doc({'/a': {'get': o()}, '/b': {'get': o()}}), prepare=False)
    return s.meth(app, 'prepare')


@use('resolving no path', 'ValueError')
def _(s):
    return s.meth(app_of(s, PLAIN), 'resolve', s.choice('path', None, ''))


@use('resolving an invalid path', 'ValueError')
def _(s):
    n = name(s, 'n')
    w = s.choice('path', 'definition', 'field', 'index', 'not an index', 'method', 'deep', 'null')
    p = {'definition': lambda: s.cat('#/definitions/', n), 'field': lambda: '#/nofield', 'index': lambda: '#/schemes/7', 'not an index': lambda: s.cat('#/schemes/', 'x'),
         'method': lambda: '#/paths/~1a/nomethod', 'deep': lambda: '#/definitions/Q/properties/z', 'null': lambda: '#/externalDocs'}[w]()
    if w == 'definition':
        s.assume(not s.truth(s.eq(n, 'M')) and not s.truth(s.eq(n, 'Q')))
    app = app_of(s, PLAIN)
    return s.meth(app, 'resolve', p if s.choice('as', 'pointer', 'reference') == 'pointer' else s.cat(URL, p))


@use('resolving an invalid path of a partial document', 'ValueError', 'Exception')
def _(s):
    n = s.choice('path', 'two', 'one/nofield', 'one/properties/z', 'list/5', 'list/x', 'text/a')
    app = app_in(s, [(URL, doc(definitions={'M': {'$ref': 'http://h.com/x.json#/one'}})), ('http://h.com/x.json', {'one': {'type': 'string'}, 'list': [{'type': 'string'}], 'text': 'a'})])
    return s.meth(app, 'resolve', 'http://h.com/x.json#/' + n, s.get('pyswagger.spec.v2_0.parser:SchemaContext'))


@use('a name in two scopes', 'ValueError')
def _(s):
    o = lambda t: {'operationId': 'same', 'tags': [t], 'responses': resp()}
    app = app_of(s, doc({'/a': {'get': o('t')}, '/b': {'get': o('u')}}))
    return s.meth(s.attr(app, 'op'), '__getitem__', 'same')


@use('an unknown operation', 'KeyError')
def _(s):
    app = app_of(s, PLAIN)
    n = s.choice('key', 'none', ('t', 'none'), 'pe')
    return s.meth(s.attr(app, 'op'), '__getitem__', n)


@use('reading the separator', 'TypeError')
def _(s):
    app = app_of(s, PLAIN)
    return s.call(defined(s, 'def v(a): return a.op.sep'), app)


@use('scanning nothing', 'ValueError')
def _(s):
    sc = s.must('pyswagger.scan:Scanner', app_of(s, PLAIN))
    return s.meth(sc, 'scan', route=s.list(), root=None)


@use('a scanner for other classes', 'ValueError')
def _(s):
    v = defined(s, '''
from pyswagger.scan import Dispatcher
class D(Dispatcher): pass
def v(t):
    @D.register([t])
    def f(self, path, obj, app): pass
    return f
''')
    return s.call(v, s.I.BUILTINS[s.choice('class', 'int', 'dict')])


@use('a cycle', 'CycleDetectionError')
def _(s):
    g = s.must('pyswagger.utils:CycleGuard')
    app = app_of(s, PLAIN)
    x = schema_of(s, app, 'M')
    s.must(s.attr(g, 'update'), x)
    return s.meth(g, 'update', x)


PLAIN = opdoc([{'name': 'i', 'in': 'path', 'type': 'string', 'required': True}], path='/a/{i}', oid='op1', tags=['t'], consumes=['application/json'], produces=['application/json'],
              root={'definitions': {'M': {'type': 'object', 'properties': {'p': {'type': 'string'}}, 'required': ['p']}},
                    'securityDefinitions': {'k': {'type': 'apiKey', 'in': 'query', 'name': 'x'}, 'odd': {'type': 'other'}, 'b': {'type': 'basic'}}})


# credentials and clients ------------------------------------------------------------------------------------------
@use('unknown credentials', 'ValueError')
def _(s):
    n = s.token('n')
    sec = s.must('pyswagger.core:Security', app_of(s, PLAIN))
    for k in ('k', 'b', 'odd'):
        s.assume(not s.truth(s.eq(n, k)))
    return s.meth(sec, 'update_with', n, s.token('v'))


@use('credentials of an unsupported type', 'ValueError')
def _(s):
    sec = s.must('pyswagger.core:Security', app_of(s, PLAIN))
    return s.meth(sec, 'update_with', 'odd', s.choice('info', 'text', ('u', 'p')))


@use('no common scheme', 'ValueError')
def _(s):
    app = app_of(s, opdoc([], schemes=['ws']))
    req = s.item(s.must(op_of(s, app)), 0)
    c = defined(s, '''
from pyswagger.core import BaseClient
class C(BaseClient):
    __schemes__ = set(['http', 'https'])
v = C()
''')
    return s.meth(c, 'prepare_schemes', req)


@use('headers of another type', 'Exception')
def _(s):
    app = app_of(s, PLAIN)
    req = s.item(s.I_call(op_of(s, app), {'i': 'x'}).value, 0)
    s.must(s.attr(req, 'prepare'))
    c = s.must('pyswagger.core:BaseClient')
    return s.meth(c, 'compose_headers', req, s.choice('headers', 'a: b', 5, ('a', 'b')), s.choice('opt', None, 'join') and s.dict(('join_headers', True)))


# requests and responses -------------------------------------------------------------------------------------------
@use('a missing parameter', 'ValueError')
def _(s):
    where = s.choice('in', 'query', 'header', 'path', 'formData', 'body')
    p = {'name': 'p', 'in': where, 'required': True}
    p.update({'schema': {'type': 'string'}} if where == 'body' else {'type': 'string'})
    return s.call(op_of(s, app_of(s, opdoc([p], path='/a/{p}' if where == 'path' else '/a'))))


@use('an unknown parameter', 'ValueError')
def _(s):
    app = app_of(s, opdoc([{'name': 'p', 'in': 'query', 'type': 'string'}]))
    return s.I_call(op_of(s, app), {s.choice('name', 'q', 'P'): s.token('v'), 'p': 'x'} if s.choice('also', 'known', 'alone') == 'known' else {'q': s.token('v')})


def request(s, params, kw, **o):
    app = app_of(s, opdoc(params, method='post', **o))
    return s.item(s.I_call(op_of(s, app), kw).value, 0)


@use('a payload that is not consumed', 'SchemaError')
def _(s):
    k = s.choice('payload', 'form', 'file')
    p = {'form': {'name': 'p', 'in': 'formData', 'type': 'string'}, 'file': {'name': 'p', 'in': 'formData', 'type': 'file'}}[k]
    v = s.token('v') if k != 'file' else s.dict(('filename', 'f'), ('data', stream(s, 'x')))
    req = request(s, [p], {'p': v}, consumes=['text/other'])
    return s.meth(req, 'prepare')


@use('a format that is not consumed', 'SchemaError')
def _(s):
    req = request(s, [{'name': 'p', 'in': 'body', 'schema': {'type': 'string'}}], {'p': s.token('v')}, consumes=['application/json'])
    s.must(s.attr(req, 'consume'), 'text/other')
    return s.meth(req, 'prepare')


@use('a format that is not produced', 'SchemaError')
def _(s):
    req = request(s, [], {}, produces=['application/json'])
    s.must(s.attr(req, 'produce'), 'text/other')
    return s.meth(req, 'prepare')


@use('schemes of another type', 'ValueError')
def _(s):
    req = request(s, [], {})
    return s.meth(req, 'prepare', scheme=s.choice('scheme', 1, None, ('http',)))


@use('a preferred scheme that is not offered', 'Exception')
def _(s):
    app = app_of(s, opdoc([]))
    req = s.item(s.must(op_of(s, app)), 0)
    s.I.setattr_(req, 'scheme', 'wss')
    return s.meth(req, 'prepare', scheme=s.list('http', 'https'))


@use('data before the status', 'Exception')
def _(s):
    resp_ = s.item(s.must(op_of(s, app_of(s, opdoc([])))), 1)
    return s.meth(resp_, 'apply_with', raw=s.choice('raw', '', 'x', b'x'))


@use('a format without codec', 'Exception')
def _(s):
    if s.choice('way', 'request', 'response') == 'request':
        req = request(s, [{'name': 'p', 'in': 'body', 'schema': {'type': 'string'}}], {'p': s.token('v')}, consumes=['text/other'])
        return s.meth(req, 'prepare')
    o = opdoc([])
    o['paths']['/a']['get']['responses']['200']['schema'] = {'type': 'string'}
    r = s.item(s.must(op_of(s, app_of(s, o))), 1)
    return s.meth(r, 'apply_with', status=200, raw='x', header=s.dict(('Content-Type', 'text/other')))


# values -----------------------------------------------------------------------------------------------------------
def produce(s, d, v, **defs):
    app = app_of(s, doc(definitions=dict({'M': d}, **defs)))
    return s.meth(s.attr(app, 'prim_factory'), 'produce', schema_of(s, app, 'M'), v)


@use('an unknown type', 'ValueError')
def _(s):
    return produce(s, {'type': 'strange', 'format': s.choice('format', 'strange', None)}, 'x')


@use('a limit that is exceeded', 'ValidationError')
def _(s):
    d, v = {'maximum': ({'type': 'integer', 'maximum': 5}, 6), 'exclusive maximum': ({'type': 'integer', 'maximum': 5, 'exclusiveMaximum': True}, 5),
            'minimum': ({'type': 'integer', 'minimum': 5}, 4), 'exclusive minimum': ({'type': 'number', 'minimum': 5, 'exclusiveMinimum': True}, 5.0),
            'multiple': ({'type': 'integer', 'multipleOf': 5}, 6), 'multiple of a number': ({'type': 'number', 'multipleOf': 5}, 6.0),
            'enum': ({'type': 'string', 'enum': ['a', 'b']}, 'c'), 'long': ({'type': 'string', 'maxLength': 1}, 'ab'), 'short': ({'type': 'string', 'minLength': 3}, 'ab'),
            'few': ({'type': 'array', 'items': {'type': 'string'}, 'minItems': 2}, ['a']),
            'many': ({'type': 'array', 'items': {'type': 'string'}, 'maxItems': 1}, ['a', 'b'])}[
        s.choice('limit', 'maximum', 'exclusive maximum', 'minimum', 'exclusive minimum', 'multiple', 'multiple of a number', 'enum', 'long', 'short', 'few', 'many')]
    return produce(s, d, s.obj(v))


@use('a date of another type', 'ValueError')
def _(s):
    return produce(s, {'type': 'string', 'format': s.choice('format', 'date', 'date-time')}, s.obj({'dict': {}, 'list': [1]}[s.choice('value', 'dict', 'list')]))


@use('a text that is not a date', 'ValueError')
def _(s):
    return produce(s, {'type': 'string', 'format': s.choice('format', 'date', 'date-time')}, s.choice('value', '', 'today', '2010-1-1', '2010-00-10'))


@use('an uuid of another type', 'ValueError')
def _(s):
    return produce(s, {'type': 'string', 'format': 'uuid'}, s.obj({'int': 5, 'list': []}[s.choice('value', 'int', 'list')]))


@use('bytes of another type', 'ValueError')
def _(s):
    return produce(s, {'type': 'string', 'format': 'byte'}, s.obj({'int': 5, 'list': []}[s.choice('value', 'int', 'list')]))


@use('a model without a required property', 'ValueError')
def _(s):
    return produce(s, {'type': 'object', 'required': ['p'], 'properties': {'p': {'type': 'string'}, 'q': {'type': 'string'}}}, s.dict(('q', 'x')) if s.choice('given', 'other', 'nothing') == 'other' else s.dict())


@use('setting what is read-only', 'Exception')
def _(s):
    req = op_of(s, app_of(s, opdoc([{'name': 'b', 'in': 'body', 'schema': {'type': 'object', 'properties': {'r': {'type': 'string', 'readOnly': True}}}}], method='post')))
    return s.I_call(req, {'b': s.dict(('r', 'x'))})


@use('a file of another type', 'ValidationError')
def _(s):
    return s.I_call(op_of(s, app_of(s, opdoc([{'name': 'p', 'in': 'formData', 'type': 'file'}], method='post'))), {'p': s.dict()})


@use('an unknown collection format', 'SchemaError')
def _(s):
    p = {'name': 'p', 'in': 'query', 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': 'strange'}
    return s.I_call(op_of(s, app_of(s, opdoc([p]))), {'p': s.list('a', 'b') if s.choice('value', 'list', 'text') == 'list' else 'a,b'})


# rendering --------------------------------------------------------------------------------------------------------
def renderer(s):
    return s.must('pyswagger.primitives.render:Renderer')


@use('rendering something else', 'ValueError')
def _(s):
    app = app_of(s, PLAIN)
    w = s.choice('what', 'render', 'render all', 'render with options', 'render all with options')
    r = renderer(s)
    if w == 'render':
        return s.meth(r, 'render', s.obj({'dict': {}, 'none': None, 'op': None}[s.choice('object', 'dict', 'none')]))
    if w == 'render all':
        return s.meth(r, 'render_all', schema_of(s, app, 'M'))
    o = s.list() if s.choice('options', 'list', 'text') == 'list' else 'x'
    return s.meth(r, 'render', schema_of(s, app, 'M'), o) if w == 'render with options' else s.meth(r, 'render_all', op_of(s, app), opt=o)


@use('rendering an unknown type', 'Exception')
def _(s):
    app = app_of(s, doc(definitions={'M': {'type': 'string', 'format': 'strange'} if s.choice('what', 'format', 'nothing') == 'format' else {}}))
    return s.meth(renderer(s), 'render', schema_of(s, app, 'M'))


# getters ----------------------------------------------------------------------------------------------------------
@use('a getter that has ended', 'StopIteration')
def _(s):
    g = s.must('pyswagger.getter:DictGetter', s.list('u'), s.dict(('u', s.dict(('a', 1)))))
    s.must(s.attr(g, '__next__'))
    return s.meth(g, '__next__')


@use('a resource of another type', 'ValueError')
def _(s):
    g = s.must('pyswagger.getter:DictGetter', s.list('u'), s.dict(('u', s.obj({'none': None, 'list': [1], 'int': 5}[s.choice('type', 'none', 'list', 'int')]))))
    return s.meth(g, '__next__')


@use('a broken resource', 'Exception')
def _(s):
    g = s.must('pyswagger.getter:DictGetter', s.list('u'), s.dict(('u', s.choice('text', '{', '{"a": }', b'{'))))
    return s.meth(g, '__next__')


@use('a getter without implementation', 'NotImplementedError')
def _(s):
    return s.meth(s.must('pyswagger.getter:Getter', 'u'), 'load', 'u')


@use('a file that does not exist', 'ValueError')
def _(s):
    storage(s)
    return s.call('pyswagger.getter:LocalGetter', s.choice('path', '/d', '/d/a', '/d/a.txt', 'file:///d/a'))


@use('a getter of something else', 'Exception')
def _(s):
    return s.call('pyswagger.getter:' + s.choice('getter', 'UrlGetter', 'SimpleGetter'), s.obj({'int': 5, 'none': None}[s.choice('path', 'int', 'none')]))


@use('references into raw documents', 'Exception')
def _(s):
    w = s.choice('what', 'empty', 'text', 'number')
    d = {'empty': {}, 'text': {'a': 'text'}, 'number': {'a': 5}}[w]
    r = world(s, [('http://h.com/x.json', d)])
    return s.meth(r, 'resolve', 'http://h.com/x.json#/a/b')


@use('references to nothing in raw documents', 'ValueError', 'Exception')
def _(s):
    d = {'a': {'b': 1}, 'l': [1]}
    r = world(s, [('http://h.com/x.json', d)])
    return s.meth(r, 'resolve', 'http://h.com/x.json#/' + s.choice('pointer', 'z', 'a/z', 'l/7', 'l/x'))


# the model of documents ------------------------------------------------------------------------------------------
@use('parsing something else', 'ValueError')
def _(s):
    C = s.get('pyswagger.spec.v2_0.parser:' + s.choice('context', 'SchemaContext', 'SwaggerContext', 'OperationContext'))
    c = s.must(C, s.dict(), '_')
    return s.meth(c, 'parse', s.obj({'list': [1], 'text': 'x', 'int': 5}[s.choice('type', 'list', 'text', 'int')]))


@use('an object without context', 'TypeError')
def _(s):
    return s.call('pyswagger.spec.v2_0.objects:Schema', s.obj({'none': None, 'dict': {}}[s.choice('given', 'none', 'dict')]))


@use('updating what is no field', 'AttributeError')
def _(s):
    return s.meth(schema_of(s, app_of(s, PLAIN), 'M'), 'update_field', s.choice('name', 'nothing', 'Type'), 1)


@use('dumping what is no JSON', 'ValueError')
def _(s):
    app = app_of(s, PLAIN)
    m = schema_of(s, app, 'M')
    s.must(s.attr(m, 'update_field'), 'default', s.obj({'bytes': [b'x'], 'none': {'a': None}}[s.choice('value', 'bytes', 'none')]))
    return s.meth(m, 'dump')


@use('a container of another kind', 'ValueError')
def _(s):
    return s.call('pyswagger.spec.base:container_apply', s.choice('kind', 99, 'list'), s.list(), Builtin('f', lambda I, a, kw: None))


@use('comparing lists of mixed types', 'ValueError')
def _(s):
    return s.call('pyswagger.utils:_diff_', s.list(1, 'a'), s.list('a', 1))


# 1.2 documents ---------------------------------------------------------------------------------------------------
R12 = 'http://h.com/api-docs'


def old(s, res, root=None, prepare=True):
    rs = res if isinstance(res, list) else [res]
    root = root or {'swaggerVersion': '1.2', 'apis': [{'path': '/r%d' % i} for i in range(len(rs))]}
    pairs = [(R12, s.obj(root))] + [(R12 + '/r%d' % i, s.obj(r)) for i, r in enumerate(rs)]
    g = s.must('pyswagger.getter:DictGetter', s.list(*[u for u, _ in pairs]), s.dict(*pairs))
    o = s.call(s.attr(s.get('pyswagger.core:App'), 'load'), R12, getter=g)
    return s.meth(o.value, 'prepare') if o.ok and prepare else o


def resource(params=(), models=None, nick='n', base='http://h.com/v1', **kw):
    r = {'swaggerVersion': '1.2', 'basePath': base, 'resourcePath': '/r', 'apis': [{'path': '/r', 'operations': [dict({'method': 'GET', 'nickname': nick, 'parameters': list(params)}, **kw)]}]}
    if models:
        r['models'] = models
    return r


@use('1.2: limits of other types', 'SchemaError')
def _(s):
    p = {'name': 'p', 'paramType': 'query', 'type': s.choice('type', 'string', 'boolean'), s.choice('limit', 'minimum', 'maximum'): s.choice('value', '1', '0')}
    return old(s, resource([p])) if s.choice('in', 'parameter', 'model') == 'parameter' else old(s, resource(models={'M': {'id': 'M', 'properties': {'q': {k: v for k, v in p.items() if k not in ('name', 'paramType')}}}}))


@use('1.2: references in parameters', 'SchemaError')
def _(s):
    w = s.choice('what', 'items', 'parameter', 'multiple')
    p = {'name': 'p', 'paramType': s.choice('in', 'query', 'header', 'form')}
    p.update({'items': {'type': 'array', 'items': {'$ref': 'M'}}, 'parameter': {'$ref': 'M'}, 'multiple': {'type': 'M', 'allowMultiple': True}}[w])
    return old(s, resource([p], models={'M': {'id': 'M', 'properties': {}}}))


@use('1.2: two hosts', 'SchemaError')
def _(s):
    other = resource(nick='m', base='http://%s/v1' % s.choice('host', 'other.com', 'h.com:81'))
    other['apis'][0]['path'] = '/q'
    return old(s, [resource(), other])


@use('1.2: operations of one name', 'ValueError')
def _(s):
    r = resource()
    r['apis'].append({'path': '/z', 'operations': [{'method': 'POST', 'nickname': 'n', 'parameters': []}]})
    return old(s, r)


@use('1.2: a resource list that is none', 'TypeError')
def _(s):
    return old(s, [], root={'swaggerVersion': '1.2', 'apis': {'dict': {}, 'text': 'x'}[s.choice('apis', 'dict', 'text')]})


@use('webapp2 elsewhere', 'Exception')
def _(s):
    return s.call('pyswagger.contrib.client.webapp2:Webapp2TestClient', s.dict())


def failing(s, o, given):
    """the contract of the scenarios with injected failures: nothing that failed is lost"""
    reached(s)
    f = c34.faulted(s)
    if not f:
        return
    s.check(not o.ok or all('ImportError' in x for x in f), 'swallowed', lambda: 'a failure does not surface: %s; the outcome is %s' % (', '.join(f), show(o.value)))
    if not o.ok:
        names = {x.rsplit(' raises ', 1)[1].split(' ')[0] for x in f}
        mine = [n for n in ACCIDENTS if o.is_exc(n)]
        s.check(not mine or any(o.is_exc(n) for n in names), 'accident', lambda: '%s is raised after %s' % (show(o.exc), ', '.join(f)), o.site)


def after(run):
    got = {k[len('raised '):].split(' ')[0] for k in run.extra if k.startswith('raised ')}
    run.index += 1
    st = {'name': 'raise statements', 'index': run.index, 'paths': 0, 'concluded': 0, 'inconclusive': 0, 'skipped': 0, 'splits': 0, 'obligations': 0, 'diverged': 0, 'complete': True}
    run.scen.append(st)
    for m in struct.load(run.root).values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Raise) and x.exc is not None:
                st['paths'] += 1
                w = struct.where(m, x)
                if w.split(' ')[0] in got:
                    st['concluded'] += 1
                    run.obligation(st['name'], 'documented')
                else:
                    st['inconclusive'] += 1
                    run.inconclusive.append({'scenario': st['name'], 'why': 'no wrong use of the table reaches the raise statement at %s' % w, 'where': []})

def check(run):
    q = Names(run)
    for k in ('names', 'attributes', 'raised', 'messages', 'calls', 'handlers'):
        run.structural('all %s' % k, getattr(q, k))

    for name_, classes, f, kw in USES:
        def body(s, classes=classes, f=f):
            documented(s, f(s), *classes)
        run.explore(name_, body, mods=c13.MODS, **kw)
    c34.drive(run, failing)
