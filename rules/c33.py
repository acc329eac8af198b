"""Data, never code.  Query over every module of the package: each name that denotes a function executing, importing, unpickling or
running its argument in a shell, each YAML load and each template, resolved through imports, aliases and attributes; what is imported
or used as a template has to be built from constants of the library and the document version only (followed through variables,
functions and their callers).  Then the abstract interpreter drives documents, arguments and responses of both versions through
the library, and no such function may be reached with them."""
import ast

from absint import struct
from .common import *

# everything below these names executes, imports or deserialises code
HARD = ('builtins.eval', 'builtins.exec', 'builtins.execfile', 'builtins.compile', 'builtins.input', 'os.system', 'os.popen', 'os.popen2', 'os.popen3', 'os.popen4', 'os.startfile',
        'six.exec_', 'runpy', 'subprocess', 'commands', 'popen2', 'pty', 'pickle', 'marshal', 'shelve', 'dill', 'jsonpickle', 'cloudpickle', 'code.interact', 'code.InteractiveInterpreter',
        'codeop', 'yaml.unsafe_load', 'yaml.unsafe_load_all', 'yaml.full_load', 'yaml.full_load_all', 'yaml.UnsafeLoader', 'yaml.FullLoader', 'yaml.Loader', 'yaml.CLoader', 'yaml.CUnsafeLoader', 'yaml.CFullLoader',
        'types.FunctionType', 'types.CodeType', 'ctypes', 'jinja2.Template', 'mako', 'tornado.template', 'asyncio.create_subprocess_shell', 'asyncio.create_subprocess_exec')
HARD_PREFIX = ('os.exec', 'os.spawn', 'os.posix_spawn')
IMPORT = ('builtins.__import__', 'importlib.import_module', 'importlib.__import__', 'importlib.machinery', 'importlib.util', 'imp.load_module', 'imp.load_source', 'imp.load_compiled', 'imp.load_dynamic', 'imp.find_module', 'pkgutil', 'zipimport', 'six._import_module', 'pkg_resources', 'werkzeug.utils.import_string', 'pydoc.locate')
YAML = ('yaml.load', 'yaml.load_all')
SAFE = ('yaml.SafeLoader', 'yaml.CSafeLoader', 'yaml.BaseLoader', 'yaml.CBaseLoader')
TEMPLATE = ('string.Template', 'string.Formatter')


def under(d, names):
    return any(d == n or d.startswith(n + '.') for n in names)


class Query(object):
    def __init__(self, run):
        self.mods = struct.load(run.root)
        self.n = 0
        self.bad = []

    def callers(self, qual):
        """call sites of a top level function or of a method name"""
        out = []
        short = qual.rsplit('.', 1)[1]
        for m in self.mods.values():
            for c in ast.walk(m.tree):
                if isinstance(c, ast.Call):
                    d = struct.dotted(m, c.func)
                    if d == qual or (d is None and isinstance(c.func, ast.Attribute) and c.func.attr == short) or (d and d.rsplit('.', 1)[-1] == short and d.startswith('pyswagger')):
                        out.append((m, c))
        return out

    def fixed(self, m, e, depth=0, seen=()):
        """is the text built from constants of the library and the version of the document only?"""
        if depth > 20 or e in seen:
            return e in seen
        seen = seen + (e,)

        def go(x):
            return self.fixed(m, x, depth + 1, seen)
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return all(go(x) for x in e.elts)
        if isinstance(e, ast.Dict):
            return all(go(x) for x in e.values)
        if isinstance(e, ast.JoinedStr):
            return all(go(x.value) if isinstance(x, ast.FormattedValue) else True for x in e.values)
        if isinstance(e, ast.BinOp):
            return go(e.left) and go(e.right)
        if isinstance(e, ast.IfExp):
            return go(e.body) and go(e.orelse)
        if isinstance(e, ast.BoolOp):
            return all(go(x) for x in e.values)
        if isinstance(e, ast.Subscript):
            return go(e.value)
        if isinstance(e, ast.Starred):
            return go(e.value)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return go(e.elt) and all(go(g.iter) for g in e.generators)
        if isinstance(e, ast.Attribute):
            if e.attr in ('version', '__swagger_version__', '__name__', '__package__', '__file__') or e.attr.endswith('__version'):
                # of the application or a class, not of a part of the document
                b = e.value
                return not (isinstance(b, ast.Attribute) and b.attr.strip('_') in ('info', 'root', 'raw')) and not (isinstance(b, ast.Name) and b.id in ('info', 'root', 'raw'))
            d = struct.dotted(m, e)
            return self.constant_name(d) if d else False
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in ('join', 'format', 'replace', 'lower', 'upper', 'strip', 'split', 'encode', 'decode', 'get', 'values', 'keys', 'items', 'rstrip', 'lstrip', 'title'):
                return go(f.value) and all(go(a) for a in e.args) and all(go(k.value) for k in e.keywords)
            d = struct.dotted(m, f)
            if d in ('builtins.str', 'builtins.repr', 'builtins.list', 'builtins.tuple', 'builtins.map', 'builtins.sorted', 'six.text_type', 'builtins.int'):
                return all(go(a) for a in e.args)
            if d and d.startswith('pyswagger.'):
                r = self.function(d)
                if r is not None:
                    mm, fn = r
                    rets = [x for x in ast.walk(fn) if isinstance(x, ast.Return) and x.value is not None]
                    return bool(rets) and all(self.fixed(mm, x.value, depth + 1, seen) for x in rets)
            return False
        if isinstance(e, ast.Name):
            for fn in struct.scopes(e):
                b = struct.bound(fn).get(e.id)
                if not b:
                    continue
                if fn is struct.scopes(e)[0]:
                    b = struct.reaching(e) or b
                for k, x in b:
                    if k == 'assign' and not go(x):
                        return False
                    if k == 'aug' and not go(x.value):
                        return False
                    if k == 'for' and not go(x.iter):
                        return False
                    if k == 'param' and not self.param(m, fn, e.id, depth, seen):
                        return False
                    if k in ('other', 'with', 'def'):
                        return False
                return True
            # comprehension variables
            u = e
            while hasattr(u, 'up'):
                u = u.up
                for g in getattr(u, 'generators', ()):
                    if any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(g.target)):
                        return go(g.iter)
            if e.id in m.assigns:
                return all(go(x) for x in m.assigns[e.id])
            if e.id in m.alias:
                return self.constant_name(struct.canon(m.alias[e.id]))
            return e.id in ('__name__', '__package__', '__file__')
        return False

    def function(self, d):
        mn, _, f = d.rpartition('.')
        m = self.mods.get(mn)
        if m and isinstance(m.defs.get(f), ast.FunctionDef):
            return m, m.defs[f]
        return None

    def constant_name(self, d):
        mn, _, x = d.rpartition('.')
        m = self.mods.get(mn)
        return bool(m and x in m.assigns and all(self.fixed(m, v, 1) for v in m.assigns[x]))

    def param(self, m, fn, p, depth, seen):
        """every caller gives a fixed text for the parameter"""
        if isinstance(fn, ast.Lambda):
            return False
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        method = isinstance(getattr(fn, 'up', None), ast.ClassDef)
        i = names.index(p) - (1 if method else 0) if p in names else None
        if i is None or i < 0:
            return False
        cs = self.callers(m.name + '.' + fn.name)
        n = 0
        for mm, c in cs:
            a = c.args[i] if i < len(c.args) else None
            for k in c.keywords:
                if k.arg == p:
                    a = k.value
            if a is None:
                j = names.index(p) - (len(names) - len(fn.args.defaults))
                if 0 <= j:
                    a, mm2 = fn.args.defaults[j], m
                    if not self.fixed(mm2, a, depth + 1, seen):
                        return False
                    n += 1
                    continue
                return False
            if not self.fixed(mm, a, depth + 1, seen):
                return False
            n += 1
        return n > 0

    def report(self, m, n, rule, msg):
        self.bad.append((struct.where(m, n), rule, msg))

    def go(self):
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Call):
                    self.reference(m, n)
                if isinstance(n, ast.Call):
                    self.n += 1
                    self.template(m, n)
        # importing a dangerous module makes its functions available under any name
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self.n += 1
                    for a in n.names:
                        d = struct.canon((n.module + '.' if isinstance(n, ast.ImportFrom) and n.module and not n.level else '') + a.name)
                        if not getattr(n, 'level', 0) and under(d, [h for h in HARD if not h.startswith(('builtins', 'os.', 'types.', 'ctypes'))]):
                            self.report(m, n, 'import', 'imports %s, which executes or deserialises code' % d)
        return self.n, self.bad

    def reference(self, m, n):
        d = struct.dotted(m, n)
        if d is None or (isinstance(getattr(n, 'up', None), ast.Attribute) and n.up.value is n):
            return
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == 'getattr'):
            return
        self.n += 1
        if under(d, HARD) or d.startswith(HARD_PREFIX):
            self.report(m, n, 'code', '%s executes, deserialises or runs its argument' % d)
        elif under(d, IMPORT):
            c = getattr(n, 'up', None)
            if not (isinstance(c, ast.Call) and c.func is n):
                self.report(m, n, 'import', '%s is passed on as a value, what it imports is not fixed' % d)
                return
            # name (and path) arguments; a file or description that comes from find_module carries the same name
            args = list(c.args[:1]) + [k.value for k in c.keywords if k.arg in ('name', 'package')]
            for a in args:
                if not self.fixed(m, a):
                    self.report(m, n, 'import', '%s imports a name that is not built from constants of the library' % d)
                    break
            if not args:
                self.report(m, n, 'import', '%s imports a name that is not known' % d)
        elif under(d, YAML):
            c = getattr(n, 'up', None)
            ok = False
            if isinstance(c, ast.Call) and c.func is n:
                ls = [k.value for k in c.keywords if k.arg == 'Loader'] + list(c.args[1:2])
                ok = bool(ls) and all(struct.dotted(m, x) in SAFE for x in ls)
            if not ok:
                self.report(m, n, 'yaml', '%s without a safe loader' % d)

    def template(self, m, c):
        f = c.func
        if isinstance(f, ast.Attribute) and f.attr in ('format', 'format_map', 'vformat') and not struct.dotted(m, f) == 'builtins.format':
            if not self.fixed(m, f.value):
                self.report(m, c, 'template', 'a text that is not a constant of the library is used as a template')
        d = struct.dotted(m, f)
        if d and under(d, TEMPLATE) and c.args and not self.fixed(m, c.args[0]):
            self.report(m, c, 'template', 'a text that is not a constant of the library is used as a template')


DANGER = ('eval', 'exec', 'execfile', 'compile', '__import__', 'input', 'yaml.load', 'yaml.full_load', 'yaml.unsafe_load', 'yaml.load_all', 'pickle.loads', 'os.system')


def clean(s, what):
    for e in s.events(*DANGER):
        safe = e.name.startswith('yaml') and any('SafeLoader' in show(x) or 'BaseLoader' in show(x) for x in list(e.args) + list(e.kw.values()))
        s.check(safe, 'code', lambda: '%s reaches %s(%s)' % (what, e.name, ', '.join(show(a) for a in e.args)), e.site if hasattr(e, 'site') else None)
    for e in s.events('imp.find_module', 'imp.load_module', 'importlib.import_module', 'import_module'):
        n = s.R(e.args[0])
        s.check(isinstance(n, str), 'import', lambda: '%s imports %s' % (what, show(n)))
        s.check(n.startswith('pyswagger.'), 'import', lambda: '%s imports %s' % (what, n))


def check(run):
    q = []

    def query(run):
        x = Query(run)
        r = x.go()
        run.extra['calls, references and imports examined'] = x.n
        run.extra['modules examined'] = len(x.mods)
        return r
    run.structural('code, imports, YAML and templates in every module', query)
    versions(run)
    documents(run)
    responses(run)


def versions(run):
    """the version of a document never chooses what is imported, unless it is a supported one"""
    def body(s):
        v = s.choice('version', s.token('v'), s.sym('w', 'str'), '2.0', '1.2', '../x', 'os', s.cat('2.0.', s.token('t')), None, s.sym('n', 'int', 'float'))
        field = s.choice('field', 'swagger', 'swaggerVersion')
        d = {field: v, 'paths': {}, 'apis': [], 'info': {'title': s.token('title'), 'version': s.token('info version'), 'description': 'd'}, 'apiVersion': s.token('api version')}
        o = s.call(s.attr(s.get('pyswagger.core:App'), 'load'), URL, resolver=world(s, [(URL, d)]))
        if o.ok:
            s.meth(o.value, 'validate', strict=False)
            s.meth(o.value, 'prepare')
        clean(s, 'a document of version %s' % show(v))
    run.explore('versions', body)


def documents(run):
    """texts of a document that are used all over the library"""
    def body(s):
        x, y = s.sym('x', 'str'), s.token('y')
        where = s.choice('field', 'type', 'format', 'pattern', 'collectionFormat', 'operationId', 'default', 'consumes', 'description', 'basePath', 'host', 'x-codec', 'in')
        p = {'name': 'p', 'in': 'query', 'type': 'string'}
        d = opdoc([p], method='post')
        o = d['paths']['/a']['post']
        if where in ('type', 'format', 'pattern', 'collectionFormat', 'default', 'in'):
            p[where] = y
        elif where == 'operationId':
            o[where] = 'op1'
            o['tags'] = [y]
        elif where == 'consumes':
            o['consumes'] = o['produces'] = [y]
        elif where in ('basePath', 'host'):
            d[where] = s.cat('/', y) if where == 'basePath' else y
        else:
            o[where] = y
        ap = s.call(s.attr(s.get('pyswagger.core:App'), 'load'), URL, resolver=world(s, [(URL, d)]))
        if ap.ok:
            s.meth(ap.value, 'validate', strict=False)
            if s.meth(ap.value, 'prepare').ok:
                op = s.item(s.attr(ap.value, 'op'), 'op1')
                r = s.call(op, p=s.choice('argument', s.token('a'), s.sym('i', 'int'), None))
                if r.ok:
                    s.meth(s.items(r.value)[0], 'prepare')
        clean(s, 'the field %s' % where)
    run.explore('documents', body)


def responses(run):
    def pre(s):
        t = {'type': 'object', 'properties': {'a': {'type': 'string'}, 'b': {'type': 'string', 'format': 'byte'}}, 'additionalProperties': {'type': 'string'}}
        d = opdoc([])
        d['paths']['/a']['get']['responses']['200'] = {'description': 'ok', 'schema': t, 'headers': {'X-A': {'type': 'integer'}}}
        app = app_of(s, d)
        return app, op_of(s, app)

    def body(s, pre):
        app, op = pre
        req, resp = s.items(s.must(op))
        ct = s.choice('type', 'application/json', 'application/x-yaml', 'text/plain', 'application/python-pickle', s.token('ct'))
        raw = s.choice('raw', s.sym('raw', 'str'), s.sym('rawb', 'bytes'), s.token('t'))
        s.meth(resp, 'apply_with', status=200, raw=raw, header=s.dict(('Content-Type', ct), ('X-A', s.sym('h', 'str'))))
        clean(s, 'a response of type %s' % show(ct))
    run.explore('responses', body, setup=pre)
