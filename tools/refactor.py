#!/usr/bin/env python3
"""Behaviour-preserving rewritings of the package, applied everywhere at once, to see that the checks stay quiet.

refactor.py DEST MODE...   copies /repo to DEST and rewrites its non-test modules.  Modes:
  temps     returned expressions and call arguments of returns go through a local variable
  swap      if/else branches swapped under the negated condition; else after return/raise/continue dropped
  rename    local variables renamed
  none      == None / != None become is / is not
  loops     for loops become while loops over an iterator
  comps     comprehensions become loops in a local function
  cond      conditional expressions become local functions with if statements
  wrap      every function passes its arguments on to a new helper with the old body
  items     six.iteritems loops become .items() loops or loops over keys
  append    x.append(y) statements become x += [y] / x.extend([y]); d.update({k: v}) becomes d[k] = v
  member    x in (a, b) with constants becomes comparisons
  noop      statements that do nothing in every function
"""
import ast
import copy
import os
import shutil
import sys

N = [0]


def fresh(p):
    N[0] += 1
    return '%s_%d' % (p, N[0])


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def is_gen(f):
    todo = list(f.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


class Block(ast.NodeTransformer):
    """rewrites lists of statements"""

    def block(self, body):
        out = []
        for st in body:
            r = self.stmt(st)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b))
        return node

    def stmt(self, st):
        return st


class Temps(Block):
    def stmt(self, st):
        if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)):
            n = fresh('result')
            return [ast.Assign([name(n, ast.Store())], st.value), ast.Return(name(n))]
        return st


def negate(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


class Swap(Block):
    def stmt(self, st):
        if isinstance(st, ast.If) and st.orelse:
            if isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                rest, st.orelse = st.orelse, []
                return [st] + rest
            if not (len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If)):
                return ast.If(negate(st.test), st.orelse, st.body)
        return st


class NoneIs(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            for a, b in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
                if isinstance(b, ast.Constant) and b.value is None:
                    return ast.Compare(a, [ast.Is() if isinstance(n.ops[0], ast.Eq) else ast.IsNot()], [b])
        return n


def loop_ctl(body):
    """the statements contain break/continue of this loop"""
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Break, ast.Continue)):
            return True
        if isinstance(x, (ast.For, ast.While)):
            todo.extend(x.orelse)
            continue
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


class Loops(Block):
    def stmt(self, st):
        if isinstance(st, ast.For):
            it = fresh('it')
            more = fresh('more')
            get = ast.Try([ast.Assign([st.target], ast.Call(name('next'), [name(it)], []))],
                          [ast.ExceptHandler(name('StopIteration'), None, [ast.Break()] if not st.orelse else [ast.Assign([name(more, ast.Store())], ast.Constant(False)), ast.Continue()])], [], [])
            w = ast.While(ast.Constant(True) if not st.orelse else name(more), [get] + st.body, st.orelse)
            return [ast.Assign([name(it, ast.Store())], ast.Call(name('iter'), [st.iter], []))] + ([ast.Assign([name(more, ast.Store())], ast.Constant(True))] if st.orelse else []) + [w]
        return st


class Hoist(Block):
    """expressions that become local functions defined before the statement"""
    kinds = ()

    def __init__(self):
        self.defs = []

    def make(self, e, scope):
        raise NotImplementedError

    def block(self, body):
        return body

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if isinstance(f, ast.FunctionDef):
            f.body = self.rewrite(f.body)
        return f

    def rewrite(self, body):
        out = []
        for st in body:
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(st, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    setattr(st, fld, self.rewrite(b))
            for h in getattr(st, 'handlers', []):
                h.body = self.rewrite(h.body)
            if isinstance(st, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) or isinstance(st, (ast.If, ast.For)):
                outer = self

                class V(ast.NodeTransformer):
                    def visit_Lambda(self, n):
                        return n

                    def generic_visit(self, n):
                        if isinstance(n, ast.stmt) and n is not st:
                            return n
                        if isinstance(n, outer.kinds):
                            r = outer.make(n)
                            if r is not None:
                                out.append(r[0])
                                return r[1]
                            return n
                        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                            return n
                        return super().generic_visit(n)
                st = V().visit(st)
            out.append(st)
        return out


class Comps(Hoist):
    kinds = (ast.ListComp,)

    def make(self, e):
        f, r = fresh('collect'), fresh('out')
        inner = [ast.Expr(ast.Call(ast.Attribute(name(r), 'append', ast.Load()), [e.elt], []))]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                inner = [ast.If(c, inner, [])]
            inner = [ast.For(g.target, g.iter, inner, [])]
        body = [ast.Assign([name(r, ast.Store())], ast.List([], ast.Load()))] + inner + [ast.Return(name(r))]
        return fdef(f, body), ast.Call(name(f), [], [])


class Cond(Hoist):
    kinds = (ast.IfExp,)

    def make(self, e):
        f = fresh('choose')
        return fdef(f, [ast.If(e.test, [ast.Return(e.body)], []), ast.Return(e.orelse)]), ast.Call(name(f), [], [])


def fdef(f, body):
    return ast.FunctionDef(f, ast.arguments([], [], None, [], [], None, []), body, [])


class Wrap(ast.NodeTransformer):
    def blk(self, body, cls):
        out = []
        for st in body:
            if isinstance(st, ast.FunctionDef) and not is_gen(st) and not st.args.vararg and not st.args.kwarg and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' and not x.args for x in ast.walk(st)):
                static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in st.decorator_list)
                klass = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in st.decorator_list)
                if not (cls and (static or klass)) and not (cls and st.name.startswith('__') and st.name.endswith('__') and st.name in ('__new__',)):
                    h = fresh('_' + st.name.strip('_') + '_impl')
                    args = [a.arg for a in st.args.args]
                    impl = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), st.body, [])
                    if cls:
                        call = ast.Call(ast.Attribute(name(args[0]), h, ast.Load()), [name(a) for a in args[1:]], [])
                    else:
                        call = ast.Call(name(h), [name(a) for a in args], [])
                    st.body = [ast.Return(call)]
                    if cls or True:
                        out.append(impl)
            out.append(st)
        return out

    def visit_Module(self, m):
        for st in m.body:
            if isinstance(st, ast.ClassDef):
                self.visit(st)
        m.body = self.blk(m.body, False)
        return m

    def visit_ClassDef(self, c):
        c.body = self.blk(c.body, True)
        return c


class Items(Block):
    def stmt(self, st):
        if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Attribute) and st.iter.func.attr == 'iteritems' and isinstance(st.iter.func.value, ast.Name) and st.iter.func.value.id == 'six':
            d = st.iter.args[0]
            N[0] += 1
            if N[0] % 2 and isinstance(st.target, ast.Tuple) and isinstance(d, (ast.Name,)):
                k, v = st.target.elts
                if isinstance(k, ast.Name):
                    st.body = [ast.Assign([v], ast.Subscript(copy.deepcopy(d), name(k.id), ast.Load()))] + st.body
                    st.target = k
                    st.iter = ast.Call(name('list'), [d], []) if False else d
                    return st
            st.iter = ast.Call(ast.Attribute(d, 'items', ast.Load()), [], [])
        return st


class Append(Block):
    def stmt(self, st):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and len(st.value.args) == 1 and not st.value.keywords:
            c = st.value
            if c.func.attr == 'append' and isinstance(c.func.value, ast.Name):
                c.func.attr = 'extend'
                c.args = [ast.List(c.args, ast.Load())]
                return st
            if c.func.attr == 'update' and isinstance(c.args[0], ast.Dict) and len(c.args[0].keys) == 1:
                return ast.Assign([ast.Subscript(c.func.value, c.args[0].keys[0], ast.Store())], c.args[0].values[0])
        return st


class Member(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) and isinstance(n.left, (ast.Name, ast.Attribute)):
            e = n.comparators[0].elts
            if e and all(isinstance(x, ast.Constant) for x in e):
                r = ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [x]) for x in e])
                return r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        return n


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        # nested scopes are renamed with the outermost function
        loc = set()
        params = set()
        bad = set()
        for x in ast.walk(f):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                a = x.args
                for p in a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
                    if p is not None:
                        params.add(p.arg)
                if isinstance(x, ast.FunctionDef) and x is not f:
                    bad.add(x.name)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                loc.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                bad.update(x.names)
            elif isinstance(x, ast.ClassDef):
                bad.add(x.name)
                bad.update(y.id for y in ast.walk(x) if isinstance(y, ast.Name))
            elif isinstance(x, ast.ExceptHandler) and x.name:
                bad.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                bad.update((y.asname or y.name).split('.')[0] for y in x.names)
        m = {n: 'v_' + n for n in loc - params - bad if not n.startswith('__')}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
        return f


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        i = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(i, ast.Assign([name('_unused', ast.Store())], ast.Constant(0)))
        return f


MODES = dict(temps=Temps, swap=Swap, none=NoneIs, loops=Loops, comps=Comps, cond=Cond, wrap=Wrap, items=Items, append=Append, member=Member, rename=Rename, noop=Noop)


def main():
    dest = sys.argv[1]
    if os.path.exists(dest):
        shutil.rmtree(dest)
    shutil.copytree('/repo', dest, symlinks=True)
    for base, dirs, files in os.walk(dest + '/pyswagger'):
        if 'tests' in dirs:
            dirs.remove('tests')
        for fn in files:
            if not fn.endswith('.py'):
                continue
            p = os.path.join(base, fn)
            t = ast.parse(open(p, encoding='utf-8').read())
            for m in sys.argv[2:]:
                t = MODES[m]().visit(t)
            ast.fix_missing_locations(t)
            src = ast.unparse(t)
            ast.parse(src)
            open(p, 'w', encoding='utf-8').write(src + '\n')


main()
