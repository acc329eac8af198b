"""Files and connections.  Every call in the package that opens something is enumerated from the syntax trees; the interpreter drives
each of them through the public entry points with failures injected at every point where a library or the caller's stream can
raise (opening, reading, decoding, building the request, sending), on every path.  At the end of a path each handle that was
opened has to be closed, it has to be open while it is used, and streams of the caller have to be untouched."""
import ast

from absint import struct
from .common import *
from . import c13, c32   # the models of the HTTP libraries and of the YAML parser

OPENERS = ('builtins.open', 'io.open', 'codecs.open', 'os.open', 'os.fdopen', 'os.popen', 'builtins.file', 'io.FileIO', 'io.open_code', 'urllib.request.urlopen', 'urllib.urlopen', 'urllib2.urlopen',
           'zipfile.ZipFile', 'tarfile.open', 'gzip.open', 'bz2.open', 'lzma.open', 'tempfile.TemporaryFile', 'tempfile.NamedTemporaryFile', 'tempfile.mkstemp', 'tempfile.SpooledTemporaryFile',
           'socket.socket', 'socket.create_connection', 'http.client.HTTPConnection', 'http.client.HTTPSConnection', 'imp.find_module', 'mmap.mmap', 'subprocess.Popen')
# functions that read a handle and leave it open
READERS = ('json.load', 'yaml.load', 'yaml.safe_load', 'yaml.full_load', 'builtins.list', 'builtins.iter', 'builtins.len', 'builtins.str', 'builtins.tuple', 'builtins.sorted', 'csv.reader')


def sites(run):
    mods = struct.load(run.root)
    for m in mods.values():
        for c in ast.walk(m.tree):
            if isinstance(c, ast.Call):
                d = struct.dotted(m, c.func)
                d = struct.canon(d) if d else d
                if d in OPENERS:
                    yield m, c, d


def line(site):
    return str(site).split(' ')[0]


def after(run):
    """each opening call has to be covered by a scenario; what is plainly left open is reported in any case"""
    got = {k for k in run.extra if k.startswith('opened ')}
    run.index += 1
    st = {'name': 'opening calls', 'index': run.index, 'paths': 0, 'concluded': 0, 'inconclusive': 0, 'skipped': 0, 'splits': 0, 'obligations': 0, 'diverged': 0, 'complete': True}
    run.scen.append(st)
    for m, c, d in sites(run):
        st['paths'] += 1
        w = struct.where(m, c)
        if any(line(k[len('opened '):]) == line(w) for k in got):
            st['concluded'] += 1
            run.obligation(st['name'], 'closed')
            continue
        up = c.up
        leak = isinstance(up, ast.Attribute) and up.attr in ('read', 'readlines', 'readline', 'write', 'getcode', 'info', 'writelines') or isinstance(up, ast.Expr) \
            or isinstance(up, ast.Call) and up.func is not c and struct.canon(struct.dotted(m, up.func) or '') in READERS
        if leak:
            st['concluded'] += 1
            run.fail(st, Fail('closed', 'the result of %s is used without keeping it, it is never closed' % d, w), None)
        else:
            st['inconclusive'] += 1
            run.inconclusive.append({'scenario': st['name'], 'why': 'no scenario reaches the call of %s at %s' % (d, w), 'where': []})


class Given(object):
    """streams that belong to the caller"""

    def __init__(self, s):
        self.s, self.closed = s, 0

    def stream(self, content):
        s = self.s

        def read(a, kw):
            c13.fault(s.I, "the caller's stream")
            return content

        def close(a, kw):
            self.closed += 1
        return stub(s, 'Stream', read=read, close=close, __enter__=lambda a, kw: a[0] if a else None, __exit__=close)


def judged(s, o, given=None, quiet=False):
    """the contract at the end of a path"""
    for h in s.I.handles:
        s.run.extra['opened ' + str(h.site)] = 1
        s.check(h.closed, 'closed', lambda: '%s(%s) is still open after %s' % (h.name, ', '.join(show(x) for x in h.args), 'a failure: %s' % show(o.exc) if not o.ok else 'success'), h.site)
    if given is not None:
        s.check(not given.closed, "the caller's", "a stream that belongs to the caller was closed")
    return o


def start(s):
    s.I.handles[:] = []
    s.I.faults = True


def faulted(s):
    return [l for l, c, _ in s.I.chooser.log if c is True and ' raises ' in l]


# (name, scenario returning (outcome, given)); shared with C36, where the failures have to surface
SCENARIOS = []


def scenario(name):
    def deco(f):
        SCENARIOS.append((name, f))
        return f
    return deco


@scenario('local file')
def local(s):
    n = s.choice('file', '/d/a.json', '/d/swagger.json', '/d/a.yaml', 'file:///d/a.yml', '/d')
    f = {'/d': '/d/swagger.json', 'file:///d/a.yml': '/d/a.yml'}.get(n, n)
    storage(s, files=[(f, s.choice('content', '{"a": 1}', '{', b'\xff', 'a: 1'))])
    start(s)
    g = s.call('pyswagger.getter:LocalGetter', n)
    if not g.ok:
        return g, None
    return s.meth(g.value, '__next__'), None


@scenario('web resource')
def web(s):
    u = 'http://h.com/a.json'
    storage(s, net=[(u, s.choice('content', '{"a": 1}', '{', b'\xff', 'a: 1'))])
    start(s)
    g = s.call('pyswagger.getter:UrlGetter', u)
    if not g.ok:
        return g, None
    return s.meth(g.value, '__next__'), None


@scenario('missing resources')
def missing(s):
    storage(s)
    start(s)
    if s.choice('what', 'file', 'url') == 'url':
        return s.meth(s.must('pyswagger.getter:UrlGetter', 'http://h.com/a.json'), '__next__'), None
    return s.meth(s.must('pyswagger.getter:LocalGetter', '/d/a.json'), '__next__'), None


DOC = '{"swagger": "2.0", "info": {"title": "t", "version": "1"}, "host": "h.com", "paths": {"/a": {"$ref": "%s"}}}'
PART = '{"a": {"get": {"responses": {"200": {"description": "d"}}}}}'


@scenario('application')
def application(s):
    where = s.choice('where', 'files', 'net')
    base = '/d/' if where == 'files' else 'http://h.com/d/'
    tab = [(base + 'swagger.json', DOC % 'x.json#/a'), (base + 'x.json', s.choice('part', PART, '{'))]
    storage(s, **{where: tab})
    start(s)
    o = s.call(s.attr(s.get('pyswagger.core:App'), 'create'), base + 'swagger.json')
    return o, None


@scenario('old application')
def old(s):
    where = s.choice('where', 'files', 'net')
    base = '/d/' if where == 'files' else 'http://h.com/d/'
    res = '{"swaggerVersion": "1.2", "basePath": "http://h.com", "resourcePath": "/r", "apis": [{"path": "/r", "operations": [{"method": "GET", "nickname": "n", "parameters": []}]}]}'
    tab = [(base + 'resource_list.json', '{"swaggerVersion": "1.2", "apis": [{"path": "/r"}]}'), (base + 'r.json', res), (base + 'resource_list.json/r', res), (base + 'r', res)]
    storage(s, **{where: tab})
    start(s)
    return s.call(s.attr(s.get('pyswagger.core:App'), 'load'), base + 'resource_list.json'), None


def uploads(s, given, header=True):
    """what an upload can look like"""
    def one(t, kind):
        fn = 'f%s.bin' % t
        d = {'filename': fn}
        if kind == 'given':
            d['data'] = given.stream(s.sym('content' + t, 'bytes', 'str'))
        if kind == 'no header':
            d['header'] = None
        elif kind == 'typed':
            d['header'] = s.dict(('Content-Type', 'text/plain'))
        elif kind == 'number':
            d['header'] = s.dict(('Content-Type', 5))
        return s.dict(*d.items())
    n = s.choice('files', 'one', 'two')
    kinds = [s.choice('first', 'disk', 'given', 'no header', 'typed', 'number')]
    if n == 'two':
        kinds.append(s.choice('second', 'disk', 'given', 'no header', 'number'))
    fs = [one(str(i), k) for i, k in enumerate(kinds)]
    names = [x for i, k in enumerate(kinds) for x in ['f%d.bin' % i] if k != 'given']
    # one of the files on disk may be missing
    gone = s.choice('on disk', 'all', 'not the last') if names else 'all'
    storage(s, files=[(x, s.sym('disk' + x, 'bytes')) for x in (names if gone == 'all' else names[:-1])])
    return fs


def opup(**kw):
    return opdoc([{'name': 'u', 'in': 'formData', 'type': 'array', 'items': {'type': 'file'}}, {'name': 'v', 'in': 'formData', 'type': 'file'}], method='post', **kw)


@scenario('multipart')
def multipart(s, op):
    given = Given(s)
    fs = uploads(s, given)
    kw = {'u': s.list(*fs)} if s.choice('in', 'a list', 'a field') == 'a list' else {'v': fs[0]}
    start(s)
    o = s.I_call(op, kw)
    if not o.ok:
        return o, given
    req = s.item(o.value, 0)
    return s.meth(req, 'prepare', handle_files=True), given


def via(which):
    @scenario('%s client' % which)
    def body(s, op):
        c = c13.client(s, which)
        c13.answer(s)
        given = Given(s)
        fs = uploads(s, given)
        kw = {'u': s.list(*fs)} if s.choice('in', 'a list', 'a field') == 'a list' else {'v': fs[0]}
        start(s)
        o = s.I_call(op, kw)
        if not o.ok:
            return o, given
        return s.meth(c, 'request', o.value), given
    return body


for _w in c13.CLIENTS:
    via(_w)


@scenario('modules')
def modules(s):
    start(s)
    return s.call('pyswagger.utils:import_string', s.token('module')), None


def drive(run, judge):
    for name, f in SCENARIOS:
        kw = {}
        if name == 'webapp2 client':
            kw['version'] = c13.CLIENTS['webapp2'][1]

        def body(s, pre=None, f=f):
            o, given = f(s) if pre is None else f(s, pre)
            judge(s, o, given)
        if name == 'multipart' or name.endswith('client'):
            kw['setup'] = lambda s: op_of(s, app_of(s, opup()))
        run.explore(name, body, mods=c13.MODS, **kw)


def check(run):
    drive(run, judged)
