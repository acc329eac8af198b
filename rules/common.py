"""Builders shared by the rule modules: abstract documents and Apps made through the public API."""
from absint.values import *
from absint.drive import Fail, Skip, Inconclusive, AnchorMissing, MISSING

URL = 'http://h.com/swagger.json'


def doc(paths=None, **kw):
    d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'host': 'h.com', 'basePath': '/v1',
         'schemes': ['http'], 'paths': paths if paths is not None else {}}
    d.update(kw)
    return d


def resp():
    return {'200': {'description': 'ok'}}


def opdoc(params=None, method='get', path='/a', oid='op1', root=None, **kw):
    o = {'operationId': oid, 'responses': resp()}
    if params is not None:
        o['parameters'] = params
    o.update(kw)
    return doc({path: {method: o}}, **(root or {}))


def app_of(s, d, url=URL, prepare=True, prim=None, extra=(), **kw):
    """App.load + App.prepare over an abstract document (extra: further documents by url)"""
    App = s.get('pyswagger.core:App')
    spec = s.obj(d)
    pairs = [(url, spec)] + [(u, s.obj(x)) for u, x in extra]
    getter = s.must('pyswagger.getter:DictGetter', s.list(*[u for u, _ in pairs]), s.dict(*pairs))
    if prim is not None:
        kw['prim'] = prim
    app = s.must(s.attr(App, 'load'), url, getter=getter, **kw)
    if prepare:
        s.must(s.attr(app, 'prepare'))
    return app


def world(s, docs, hook=None):
    """a Resolver whose default getter serves these documents (url -> structure or text); every fetch is an event 'fetch'"""
    I = s.I
    ds = [(u, d if isinstance(d, (str, Term)) else s.obj(d)) for u, d in docs]

    def load(I, a, kw):
        I.event('fetch', a[1:], kw)
        for u, d in ds:
            if s.same(u, a[1]):
                return d
        raise I.exc('ValueError', 'no document at ' + show(a[1]))
    G = I.make_class('WorldGetter', [s.get('pyswagger.getter:SimpleGetter')], {'load': Builtin('load', load)})
    return s.must('pyswagger.resolve:Resolver', hook, default_getter=G)


def app_in(s, docs, url=None, prepare=True, strict=True, **kw):
    """App over several documents, the first one is its root"""
    app = s.must(s.attr(s.get('pyswagger.core:App'), 'load'), url or docs[0][0], resolver=world(s, docs), **kw)
    if prepare:
        s.must(s.attr(app, 'prepare'), strict)
    return app


def op_of(s, app, oid='op1'):
    return s.item(s.attr(app, 'op'), oid)


def schema_of(s, app, name):
    return s.item(s.attr(s.attr(app, 'root'), 'definitions'), name)


NAMEX = ':/?#;@[]%&=+~{}. ,\t|"\r\n!\\-'


def name(s, n):
    """an arbitrary name without characters that have a meaning in URLs, JSON pointers or path templates"""
    return s.token(n, nochars=NAMEX)


def plain(s, v):
    """abstract heap -> python structure (for comparing shapes in rules); leaves stay abstract"""
    v = s.I.U(s.R(v))
    if isinstance(v, HSet):
        return {'__set__': [plain(s, k) for k, _ in v.ents.values()]}
    if isinstance(v, HDict):
        return {plain(s, k): plain(s, x) for k, x in v.ents.values()}
    if isinstance(v, HList):
        return [plain(s, x) for x in v.items]
    if isinstance(v, tuple):
        return tuple(plain(s, x) for x in v)
    return v


HOLDERS = ('schema', 'property', 'additional', 'element', 'query', 'header', 'path', 'formData', 'item', 'response header',
           'body', 'response body')


class Holder(object):
    """one place of a document that can declare constraints on a value, with the public call that pushes a
    value through it and the way to read the produced value back"""

    def __init__(self, kind):
        self.kind = kind

    def build(self, s, d):
        k = self.kind
        if k == 'schema':
            app = app_of(s, doc(definitions={'M': d}))
        elif k == 'property':
            app = app_of(s, doc(definitions={'M': {'type': 'object', 'properties': {'f': d}}}))
        elif k == 'additional':
            app = app_of(s, doc(definitions={'M': {'type': 'object', 'additionalProperties': d}}))
        elif k == 'element':
            app = app_of(s, doc(definitions={'M': {'type': 'array', 'items': d}}))
        elif k in ('query', 'header', 'formData', 'path'):
            app = app_of(s, opdoc([dict(d, **{'name': 'p', 'in': k, 'required': True})], path='/a/{p}' if k == 'path' else '/a'))
        elif k == 'item':
            app = app_of(s, opdoc([{'name': 'p', 'in': 'query', 'type': 'array', 'items': d}]))
        elif k == 'body':
            app = app_of(s, opdoc([{'name': 'p', 'in': 'body', 'schema': d}]))
        else:
            o = opdoc([])
            r = o['paths']['/a']['get']['responses']['200']
            if k == 'response body':
                r['schema'] = d
            else:
                r['headers'] = {'X-A': d}
            app = app_of(s, o)
        if k in ('schema', 'property', 'additional', 'element'):
            return app, schema_of(s, app, 'M')
        return app, op_of(s, app)

    def push(self, s, pre, v):
        app, x = pre
        k = self.kind
        if k in ('schema', 'property', 'additional', 'element'):
            w = {'schema': lambda: v, 'property': lambda: s.dict(('f', v)), 'additional': lambda: s.dict(('anything', v)),
                 'element': lambda: s.list(v)}[k]()
            return s.meth(s.attr(app, 'prim_factory'), 'produce', x, w)
        if k in ('query', 'header', 'formData', 'path', 'body'):
            return s.call(x, p=v)
        if k == 'item':
            return s.call(x, p=s.list(v))
        req, resp = s.items(s.must(x))
        if k == 'response body':
            codec = s.attr(app, 'mime_codec')
            ob = s.I.new_obj(s.I.BUILTINS['object'])
            from absint.values import Builtin
            fake = s.I.make_class('Codec', [s.I.BUILTINS['object']], {'unmarshal': Builtin('unmarshal', lambda I, a, kw: v)})
            ob.cls = fake
            s.must(s.attr(codec, 'register'), 'application/json', ob)
            o = s.meth(resp, 'apply_with', status=200, raw='x')
        else:
            o = s.meth(resp, 'apply_with', status=200, raw='', header=s.dict(('X-A', v)))
        if o.ok:
            o.value = resp
        return o

    def result(self, s, o):
        """the produced value, or MISSING when the holder only exposes its wire form"""
        k = self.kind
        v = o.value
        if k == 'schema':
            return v
        if k == 'property':
            return s.item(v, 'f')
        if k == 'additional':
            return s.item(v, 'anything')
        if k == 'element':
            return s.item(v, 0)
        if k == 'response header':
            return s.item(s.item(s.attr(v, 'header'), 'X-A'), 0)
        if k == 'response body':
            return s.attr(v, 'data')
        req = s.items(v)[0]
        p = s.attr(req, '_p')
        if k == 'body':
            return s.item(s.item(p, 'body'), 'p')
        return None

    def wire(self, s, o):
        """the string sent for it (parameter holders only)"""
        k = self.kind
        req = s.items(o.value)[0]
        p = s.item(s.attr(req, '_p'), 'query' if k == 'item' else k)
        if k in ('header', 'path'):
            return s.item(p, 'p')
        return [s.items(x)[1] for x in s.items(p)]

    PARAM = ('query', 'header', 'path', 'formData')


def stub(s, clsname, **methods):
    """an object of a class outside the repository whose methods are f(args, kw) -> value"""
    I = s.I
    ob = I.new_obj(I.BUILTINS['object'])
    ns = {}
    for n, f in methods.items():
        def g(I, a, kw, n=n, f=f):
            I.event(clsname + '.' + n, a[1:], kw)
            return f(a[1:], kw)
        ns[n] = Builtin(clsname + '.' + n, g)
    ob.cls = I.make_class(clsname, [I.BUILTINS['object']], ns)
    return ob


def stream(s, content):
    """a caller's file object delivering content"""
    return stub(s, 'Stream', read=lambda a, kw: content, close=lambda a, kw: None)


def quoted(s, v):
    """a path parameter as it appears in a URL"""
    return s.I.call_ext('urllib.parse.quote', [v], {'safe': ''})


def storage(s, files=(), net=()):
    """the files and web resources that exist: (name, content) pairs; everything else does not"""
    def find(tab, v):
        for k, c in tab:
            if s.same(k, v):
                return c
        return None
    m = s.I.F.misc
    m[('fs', 'isfile')] = m[('fs', 'exists')] = lambda v: find(files, v) is not None
    m[('fs', 'isdir')] = lambda v: any(s.same(s.cat(v, '/'), s.cat(*(list(k.args[:-1]) + [k.args[-1].rsplit('/', 1)[0] + '/'])) if isinstance(k, Term) else k.rsplit('/', 1)[0] + '/') for k, _ in files)
    m[('fs', 'open')] = lambda v: find(files, v)
    m[('fs', 'urlopen')] = lambda v: find(net, v)
