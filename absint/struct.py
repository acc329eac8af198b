"""Whole-package queries over the syntax trees: modules, import tables, scopes, resolved names, call sites."""
import ast
import os
import builtins as _b


class Module(object):
    def __init__(self, name, path, rel, tree):
        self.name, self.path, self.rel, self.tree = name, path, rel, tree
        self.alias = {}       # name -> dotted origin (imports at any level)
        self.defs = {}        # top level functions and classes
        self.assigns = {}     # top level name -> list of value expressions


def load(root, package='pyswagger', skip=('tests',)):
    """modules of the package: dotted name -> Module"""
    out = {}
    base = os.path.join(root, package)
    for dp, dn, fn in os.walk(base):
        dn[:] = sorted(d for d in dn if d not in skip and d != '__pycache__')
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, root)
            parts = rel[:-3].split(os.sep)
            is_pkg = parts[-1] == '__init__'
            if is_pkg:
                parts.pop()
            with open(p, 'rb') as h:
                tree = ast.parse(h.read(), rel)
            m = Module('.'.join(parts), p, rel, tree)
            m.is_pkg = is_pkg
            link(tree)
            for n in ast.walk(tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        m.alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(n, ast.ImportFrom):
                    src = n.module or ''
                    if n.level:
                        up = parts if is_pkg else parts[:-1]
                        up = up[:len(up) - (n.level - 1)]
                        src = '.'.join(up + ([src] if src else []))
                    for a in n.names:
                        if a.name == '*':
                            m.alias['*' + src] = src
                        else:
                            m.alias[a.asname or a.name] = src + '.' + a.name
            for n in tree.body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    m.defs[n.name] = n
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.assigns.setdefault(t.id, []).append(n.value)
            out[m.name] = m
    return out


def link(tree):
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.up = n


def scopes(n):
    """enclosing functions and lambdas, innermost first"""
    out = []
    while hasattr(n, 'up'):
        n = n.up
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            out.append(n)
    return out


def bound(fn):
    """names that a function binds"""
    if not hasattr(fn, '_bound'):
        b = {}
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            b.setdefault(x.arg, []).append(('param', fn))
        todo = list(fn.body) if isinstance(fn.body, list) else []
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                b.setdefault(n.name, []).append(('def', n))
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            b.setdefault(x.id, []).append(('assign', n.value) if isinstance(t, ast.Name) else ('other', n))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                b.setdefault(n.target.id, []).append(('aug', n))
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        b.setdefault(x.id, []).append(('for', n))
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        for x in ast.walk(i.optional_vars):
                            if isinstance(x, ast.Name):
                                b.setdefault(x.id, []).append(('with', i.context_expr))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                b.setdefault(n.name, []).append(('other', n))
            elif isinstance(n, ast.NamedExpr):
                b.setdefault(n.target.id, []).append(('assign', n.value))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    b.setdefault((x.asname or x.name).split('.')[0], []).append(('import', n))
            todo.extend(ast.iter_child_nodes(n))
        fn._bound = b
    return fn._bound


def names_bound(n):
    """names that a statement can bind"""
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            out.update(x.names)
    return out


def reaching(e):
    """the definitions of a name that reach this use in its function: list of bindings as in bound(), None if not decided here"""
    out = []
    n = e
    while True:
        up = getattr(n, 'up', None)
        if up is None or isinstance(up, (ast.Lambda, ast.ClassDef, ast.Module, ast.comprehension, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            return None
        if isinstance(n, ast.stmt):
            for body in (getattr(up, f, None) for f in ('body', 'orelse', 'finalbody')):
                if isinstance(body, list) and any(x is n for x in body):
                    i = [x is n for x in body].index(True)
                    for st in reversed(body[:i]):
                        if e.id not in names_bound(st):
                            continue
                        if isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(st)):
                            return out + [('assign', st.value)]
                        if isinstance(st, ast.AugAssign):
                            out.append(('assign', st.value))
                            continue
                        return None
            if isinstance(up, (ast.For, ast.While, ast.Try)) and e.id in names_bound(up):
                return None
            if isinstance(up, ast.With) and e.id in set().union(*[names_bound(i) for i in up.items]):
                return None
            if isinstance(up, ast.FunctionDef):
                a = up.args
                if e.id in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
                    return out + [('param', up)]
                return None
        n = up


MOVES = {'six.moves.builtins': 'builtins', '__builtin__': 'builtins', '__builtins__': 'builtins', 'cPickle': 'pickle', '_pickle': 'pickle', 'six.moves.cPickle': 'pickle',
         'six.moves.urllib.request': 'urllib.request', 'urllib2': 'urllib.request', 'six.moves.urllib.parse': 'urllib.parse', 'io.open': 'builtins.open', 'six.moves.urllib': 'urllib'}


def dotted(m, e, mods=None, depth=0):
    """the dotted origin that an expression denotes: builtins.eval, yaml.load, pyswagger.utils.import_string; None if unknown"""
    if depth > 8:
        return None
    if isinstance(e, ast.Name):
        for f in scopes(e):
            b = bound(f).get(e.id)
            if b:
                if all(k == 'assign' for k, _ in b) and len(b) == 1:
                    return dotted(m, b[0][1], mods, depth + 1)
                if any(k == 'import' for k, _ in b):
                    break
                return None
        if e.id in m.alias:
            return canon(m.alias[e.id])
        if e.id in m.defs:
            return m.name + '.' + e.id
        if e.id in m.assigns:
            v = m.assigns[e.id]
            return dotted(m, v[0], mods, depth + 1) if len(v) == 1 else None
        for k, src in m.alias.items():
            if k.startswith('*') and src.split('.')[0] not in ('pyswagger',):
                return canon(src + '.' + e.id) if not hasattr(_b, e.id) else 'builtins.' + e.id
        if hasattr(_b, e.id) or e.id in ('execfile', 'raw_input', 'reload', 'unicode', 'file'):
            return 'builtins.' + e.id
        return None
    if isinstance(e, ast.Attribute):
        d = dotted(m, e.value, mods, depth + 1)
        return canon(d + '.' + e.attr) if d else None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
        d = dotted(m, e.args[0], mods, depth + 1)
        return canon(d + '.' + e.args[1].value) if d else None
    return None


def canon(d):
    for k, v in MOVES.items():
        if d == k or d.startswith(k + '.'):
            d = v + d[len(k):]
    return d


def where(m, n):
    f = [x.name if isinstance(x, ast.FunctionDef) else 'lambda' for x in scopes(n)]
    c = n
    cls = None
    while hasattr(c, 'up'):
        c = c.up
        if isinstance(c, ast.ClassDef):
            cls = c.name
            break
    fn = (cls + '.' if cls else '') + f[-1] if f else cls or '<module>'
    return '%s:%d (%s)' % (m.rel, getattr(n, 'lineno', 0), fn)


def parent_class(n):
    while hasattr(n, 'up'):
        n = n.up
        if isinstance(n, ast.ClassDef):
            return n
    return None
