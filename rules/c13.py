"""HTTP clients.  The transport libraries are replaced by models that record what would be put on the wire (requests, tornado,
werkzeug/flask, webapp2); every client is driven with requests of every shape, credentials, options and extra headers, and
the recorded method, URL with query, headers and payload are compared with the prepared request, the returned response with
the answer of the model.  webapp2 is analysed as under Python 2, the only version its client accepts."""
from absint import lib
from .common import *
from .c07 import decl, form
from .c10 import expect, bounds, fname

CLIENTS = {'requests': ('pyswagger.contrib.client.requests:Client', None), 'tornado': ('pyswagger.contrib.client.tornado:TornadoClient', None),
           'flask': ('pyswagger.contrib.client.flask:FlaskTestClient', None), 'webapp2': ('pyswagger.contrib.client.webapp2:Webapp2TestClient', (2, 7, 18, 'final', 0))}

MODS = ('pyswagger',) + tuple(c.partition(':')[0] for c, _ in CLIENTS.values())


class Wire(object):
    """what was sent, and the answers"""

    def __init__(self):
        self.sent, self.answers, self.fail = [], [], False


W = Wire()


def U(I, v):
    return I.U(I.R(v))


def pairs(I, v):
    """list of pairs of a dict, list of pairs, or header object"""
    v = I.R(v)
    if v is None:
        return []
    m = I.getattr_(v, 'items', None) if not isinstance(U(I, v), (HList, tuple)) or isinstance(U(I, v), HDict) else None
    if m is not None:
        v = I.call(m, [], {})
    return [tuple(I.R(x) for x in I.iterate(p)) for p in I.iterate(v)]


def obj(I, cname, **attrs):
    o = I.new_obj(I.make_class(cname, [I.BUILTINS['object']], {k: Builtin('%s.%s' % (cname, k), v) for k, v in attrs.items() if callable(v)}))
    for k, v in attrs.items():
        if not callable(v):
            o.attrs[k] = v
    return o


def full(I, url, query):
    q = pairs(I, query) if not isinstance(I.R(query), str) and not (isinstance(I.R(query), Term) and I.kinds(I.R(query)) == STR) else I.R(query)
    if q == [] or q == '' or q is None:
        return url
    return I.mk_cat(url, '?', q if not isinstance(q, list) else I.call_ext('urllib.parse.urlencode', [I.new_list(q)], {}))


def record(I, method, url, query, headers, data, files=None):
    W.sent.append({'method': I.R(method), 'url': full(I, url, query), 'headers': headers, 'data': data, 'files': files or [],
                   'open': [h.closed for h in I.handles]})
    I.event('sent', [method, url], {})
    if W.fail:
        raise I.exc('Exception', 'transport failed')
    fault(I, 'transport')
    return W.answers[min(len(W.sent), len(W.answers)) - 1]


def content(I, f):
    """the content that a library would read from a stream now"""
    f = I.R(f)
    if isinstance(U(I, f), Obj) and not isinstance(U(I, f), (HDict, HList)):
        return I.call(I.getattr_(f, 'read'), [], {})
    return f


def rq_files(I, files):
    out = []
    for n, f in pairs(I, files):
        f = list(I.iterate(f))
        out.append((n, I.R(f[0]), I.R(f[2]) if len(f) > 2 else None, content(I, f[1])))
    return out


def fault(I, what):
    """a point where the library may raise (only in scenarios that inject failures)"""
    if I.faults:
        I.may_raise('Exception', what)


# ---- requests
def m_request(I, a, k):
    fault(I, 'requests.Request')
    names = ('method', 'url', 'headers', 'files', 'data', 'params')
    d = dict(zip(names, a))
    d.update(k)
    return obj(I, 'PreparedLater', **{n: d.get(n) for n in names})


def rq_send(I, rq, extra):
    g = lambda n: I.R(I.getattr_(rq, n, None))
    files = rq_files(I, g('files')) if g('files') is not None else []
    data = g('data')
    st, hd, body = record(I, g('method'), g('url'), g('params'), pairs(I, g('headers')), ('fields', pairs(I, data)) if files else ('raw', data), files)
    I.event('options', [], dict(extra))
    return obj(I, 'RequestsResponse', status_code=st, headers=I.new_dict(hd), content=body)


def m_session(I, a, k):
    def send(I, a, k):
        return rq_send(I, a[1], k)

    def direct(I, a, k):
        kw = {n: k.pop(n) for n in ('params', 'data', 'headers', 'files', 'method', 'url') if n in k}
        kw.update(dict(zip(('method', 'url'), a[1:])))
        return rq_send(I, m_request(I, [], kw), k)
    def prepare(I, a, k):
        fault(I, 'prepare_request')
        return a[1]
    return obj(I, 'Session', prepare_request=prepare, send=send, request=direct, close=lambda I, a, k: None,
               __enter__=lambda I, a, k: a[0], __exit__=lambda I, a, k: None)


# ---- tornado
def m_headers(I, a, k):
    o = obj(I, 'HTTPHeaders', add=lambda I, a, k: I.call(I.getattr_(a[0].attrs['l'], 'append'), [(I.R(a[1]), I.R(a[2]))], {}),
            items=lambda I, a, k: a[0].attrs['l'], get_all=lambda I, a, k: a[0].attrs['l'],
            __setitem__=lambda I, a, k: I.call(I.getattr_(a[0].attrs['l'], 'append'), [(I.R(a[1]), I.R(a[2]))], {}))
    o.attrs['l'] = I.new_list(pairs(I, a[0]) if a else [])
    return o


def m_httprequest(I, a, k):
    d = dict(zip(('url', 'method', 'headers', 'body'), a))
    d.update(k)
    return obj(I, 'HTTPRequest', **dict({n: d.get(n) for n in ('url', 'headers', 'body', 'allow_nonstandard_methods')}, method=d.get('method', 'GET')))


def m_async(I, a, k):
    def fetch(I, a, k):
        rq = I.R(a[1])
        g = lambda n: I.R(I.getattr_(rq, n, None))
        m, b = g('method'), g('body')
        if not g('allow_nonstandard_methods') and isinstance(m, str) and (m in ('POST', 'PATCH', 'PUT')) != (b is not None):
            raise I.exc('ValueError', 'Body must %sbe None for method %s (unless allow_nonstandard_methods is true)' % ('not ' if b is None else '', m))
        st, hd, body = record(I, m, g('url'), None, pairs(I, g('headers')) if g('headers') is not None else [], ('raw', b))
        h = m_headers(I, [I.new_list(hd)], {})
        return obj(I, 'TornadoResponse', code=st, headers=h, body=body)
    return obj(I, 'AsyncHTTPClient', fetch=fetch)


# ---- werkzeug / flask
def m_storage(I, a, k):
    fault(I, 'FileStorage')
    d = dict(zip(('stream', 'filename', 'name', 'content_type'), a))
    d.update(k)
    return obj(I, 'FileStorage', **{n: d.get(n) for n in ('stream', 'filename', 'name', 'content_type', 'headers')})


def flask_client(I):
    def op(I, a, k):
        k = dict(zip(('path',), a[1:]), **k)
        data = U(I, k.get('data'))
        files = []
        if isinstance(data, HDict):
            fields = []
            for n, v in pairs(I, data):
                for x in (list(I.iterate(v)) if isinstance(U(I, v), HList) else [v]):
                    x = I.R(x)
                    if isinstance(x, Obj) and x.cls is not None and x.cls.name == 'FileStorage':
                        st = I.R(x.attrs.get('stream'))
                        files.append((n, I.R(x.attrs['filename']), I.R(x.attrs['content_type']), b'' if st is None else content(I, st)))
                    else:
                        fields.append((n, x))
            data = ('fields', fields)
        elif isinstance(data, HList) and data.items:
            raise I.exc('AttributeError', "'list' object has no attribute 'items'")
        else:
            data = ('raw', None if isinstance(data, HList) else data)
        url = I.R(k.get('path'))
        st, hd, body = record(I, k.get('method', 'GET'), url, k.get('query_string'), pairs(I, k.get('headers')), data, files)
        h = obj(I, 'Headers', items=lambda I, a, k: I.new_list(hd), __iter__=lambda I, a, k: I.iter_(I.new_list(hd)) if hasattr(I, 'iter_') else I.new_list(hd))
        return obj(I, 'FlaskResponse', status_code=st, headers=h, data=body)
    return obj(I, 'FlaskClient', open=op)


# ---- webapp2
def m_blank(I, a, k):
    k = dict(zip(('path',), a), **k)
    rq = None

    def get_response(I, a, k2):
        o = a[0]
        d = I.R(o.attrs['POST'])
        hs = pairs(I, o.attrs['given']) + pairs(I, o.attrs['headers'])
        st, hd, body = record(I, I.R(o.attrs['method']), o.attrs['url'], None, hs, ('raw', d))
        return obj(I, 'WebappResponse', status_int=st, headerlist=I.new_list(hd), body=body, headers=I.new_dict(hd))
    o = obj(I, 'WebappRequest', get_response=get_response)
    o.attrs.update(url=k['path'], POST=k.get('POST'), given=k.get('headers'), headers=I.new_dict([]), method='GET' if k.get('POST') is None else 'POST')
    return o


lib.LIB.update({'requests.Session': m_session, 'requests.session': m_session, 'requests.Request': m_request,
                'tornado.httpclient.AsyncHTTPClient': m_async, 'tornado.httpclient.HTTPRequest': m_httprequest,
                'tornado.httputil.HTTPHeaders': m_headers, 'tornado.httputil.url_concat': lambda I, a, k: full(I, a[0], a[1]),
                'werkzeug.datastructures.FileStorage': m_storage, 'webapp2.Request.blank': m_blank})


def client(s, which, sec=None):
    I = s.I
    W.sent, W.answers, W.fail = [], [], False
    cls = CLIENTS[which][0]
    a = [] if sec is None else [sec]
    if which == 'flask':
        return s.must(cls, flask_client(I), *a)
    if which == 'webapp2':
        return s.must(cls, s.opaque('wsgi app'), *a)
    return s.must(cls, *a)


def answer(s, tag='', n=1, ct=None, status=200):
    hd = [(s.token('H%d%s' % (i, tag), nochars=' ;,\r\n:ABCDEFGHIJKLMNOPQRSTUVWXYZ'), s.sym('hv%d%s' % (i, tag), 'str')) for i in range(n)]
    if ct:
        hd.append(('Content-Type', ct))
    a = (status, hd, s.sym('raw' + tag, 'bytes'))
    W.answers.append(a)
    return a


def got(s, resp, a, what):
    st, hd, body = a
    s.same_ob(s.attr(resp, 'status'), st, 'response', '%s: status' % what)
    s.same_ob(s.attr(resp, 'raw'), body, 'response', '%s: raw body' % what)
    h = s.attr(resp, 'header')
    s.check(len(s.items(h)) == len(set(show(k) for k, _ in hd)), 'response', lambda: '%s: %d headers, specified %d' % (what, len(s.items(h)), len(hd)))
    for k in set(k for k, _ in hd):
        s.check(s.I.contains(h, k), 'response', lambda: '%s: header %s is missing' % (what, show(k)))
        vs = s.items(s.item(h, k))
        ws = [v for kk, v in hd if kk is k or kk == k and isinstance(k, str)]
        s.check(len(vs) == len(ws), 'response', lambda: '%s: %d values of header %s, specified %d' % (what, len(vs), show(k), len(ws)))
        for v, w in zip(vs, ws):
            s.same_ob(v, w, 'response', '%s: header %s' % (what, show(k)))


def headers_ob(s, got, want, what):
    """multisets of pairs"""
    rest = list(got)
    for n, v in want:
        hit = [p for p in rest if s.same(p[0], n) and s.same(p[1], v)]
        s.check(hit, 'headers', lambda: '%s: header %s: %s is missing in %s' % (what, show(n), show(v), [(show(a), show(b)) for a, b in got]))
        rest.remove(hit[0])
    s.check(not rest, 'headers', lambda: '%s: additional headers %s' % (what, [(show(a), show(b)) for a, b in rest]))


SHAPES = ('none', 'query', 'two queries', 'header', 'form', 'repeated form', 'body', 'file', 'disk file', 'file and fields', 'files', 'all')
METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')


def shape_doc(shape, method='post', **kw):
    ps = []
    if shape in ('query', 'all'):
        ps.append(decl('q', 'query'))
    if shape == 'two queries':
        ps += [{'name': 'q', 'in': 'query', 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': 'multi'}]
    if shape in ('header', 'all'):
        ps.append(decl('x-h', 'header'))
    if shape in ('form', 'all', 'file and fields'):
        ps.append(decl('f', 'formData'))
    if shape in ('repeated form', 'file and fields'):
        ps.append({'name': 'g', 'in': 'formData', 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': 'multi'})
    if shape == 'body':
        ps.append(decl('b', 'body'))
    if shape in ('file', 'disk file', 'file and fields', 'all'):
        ps.append(decl('u', 'file'))
    if shape == 'files':
        ps.append({'name': 'u', 'in': 'formData', 'type': 'array', 'items': {'type': 'file'}})
    if shape == 'all':
        ps.append(decl('i', 'path', True))
    return opdoc(ps, method=method, path='/a/{i}' if shape == 'all' else '/a', **kw)


def shape_args(s, shape, tag=''):
    """(arguments, query, headers, fields, files)"""
    a, q, h, f, u = {}, [], [], [], []
    v = lambda n: s.token(n + tag, nochars=NAMEX)
    if shape in ('query', 'all'):
        a['q'] = v('q')
        q = [('q', a['q'])]
    if shape == 'two queries':
        x = [v('q1'), v('q2')]
        a['q'] = s.list(*x)
        q = [('q', x[0]), ('q', x[1])]
    if shape in ('header', 'all'):
        a['x-h'] = v('h')
        h = [('x-h', a['x-h'])]
    if shape in ('form', 'all', 'file and fields'):
        a['f'] = v('f')
        f = [('f', a['f'])]
    if shape in ('repeated form', 'file and fields'):
        x = [v('g1'), v('g2')]
        a['g'] = s.list(*x)
        f = f + [('g', x[0]), ('g', x[1])]
    if shape == 'body':
        a['b'] = v('b')
    if shape == 'all':
        a['i'] = v('i')

    def one(t, disk, ct):
        fn = fname(s, 'fn' + t + tag)
        c = T('content', fn, 'rb', kinds=BYTES) if disk else s.sym('content' + t + tag, 'bytes')
        d = {'filename': fn}
        if not disk:
            d['data'] = stream(s, c)
        if ct:
            d['header'] = s.dict(('Content-Type', ct))
        u.append(('u', fn, ct, c))
        return s.dict(*d.items())
    if shape in ('file', 'file and fields', 'all'):
        a['u'] = one('', False, v('ct') if shape == 'file' else None)
    if shape == 'disk file':
        a['u'] = one('', True, v('ct'))
    if shape == 'files':
        a['u'] = s.list(one('1', False, None), one('2', False, v('ct')))
    return a, q, h, f, u


def sent_ob(s, x, shape, method, base, args, want_h, what):
    a, q, h, f, u = args
    s.same_ob(x['method'], method.upper(), 'method', '%s: method' % what)
    url = s.cat(base, '/v1/a', *(['/', quoted(s, a['i'])] if shape == 'all' else []))
    if q:
        url = s.cat(url, '?', form(s, q))
    s.same_ob(x['url'], url, 'url', '%s: URL' % what)
    want = list(h) + list(want_h)
    kind, data = x['data']
    if u and x['files']:
        s.check(kind == 'fields' and len(data) == len(f), 'payload', lambda: '%s: %d form fields, specified %d' % (what, len(data), len(f)))
        for (n, v), (wn, wv) in zip(data, f):
            s.same_ob(n, wn, 'payload', '%s: name of a form field' % what)
            s.same_ob(v, wv, 'payload', '%s: form field %s' % (what, wn))
        s.check(len(x['files']) == len(u), 'payload', lambda: '%s: %d files, specified %d' % (what, len(x['files']), len(u)))
        for g, w in zip(x['files'], u):
            for i, k in enumerate(('field', 'file name', 'content type', 'content')):
                s.same_ob(g[i], w[i], 'payload', '%s: %s of a file' % (what, k))
        # the library writes the Content-Type
    elif u:
        ct = [v for n, v in x['headers'] if s.same(n, 'Content-Type')]
        s.check(len(ct) == 1, 'payload', lambda: '%s: %d Content-Type headers' % (what, len(ct)))
        pre = 'multipart/form-data; boundary='
        ps = list(ct[0].args) if isinstance(ct[0], Term) and ct[0].op == 'cat' else [ct[0]]
        s.check(isinstance(ps[0], str) and ps[0].startswith(pre), 'payload', lambda: '%s: Content-Type %s' % (what, show(ct[0])))
        b = s.cat(ps[0][len(pre):], *ps[1:])
        s.same_ob(data, expect(s, b, f, [(n, fn, {'Content-Type': c} if c else {}, d) for n, fn, c, d in u], 'utf-8'), 'payload', '%s: payload' % what)
        want.append(('Content-Type', ct[0]))
    elif f:
        s.same_ob(data, form(s, f), 'payload', '%s: payload' % what)
        want.append(('Content-Type', 'application/x-www-form-urlencoded'))
    elif shape == 'body':
        s.same_ob(data, s.I.call_ext('json.dumps', [a['b']], {}), 'payload', '%s: payload' % what)
        want.append(('Content-Type', 'application/json'))
    else:
        s.check(data is None or data == '' or data == b'', 'payload', lambda: '%s: payload %s, specified none' % (what, show(data)))
    headers_ob(s, x['headers'], want, what)


def send(s, c, rr, *a, **kw):
    return s.meth(c, 'request', rr, *a, **kw)


def check(run):
    def shapes(cl, shape, method='post', accept=False):
        def setup(s):
            app = app_of(s, shape_doc(shape, method, **({'produces': ['application/json']} if accept else {})))
            return app, client(s, cl)

        def body(s, pre):
            app, c = pre
            W.sent, W.answers, W.fail = [], [], False
            args = shape_args(s, shape)
            ans = answer(s)
            rr = s.I_call(op_of(s, app), args[0]).value
            o = send(s, c, rr)
            s.check(o.ok, 'send', lambda: '%s: %r' % (cl, o), o.site)
            s.check(len(W.sent) == 1, 'send', lambda: '%s: sent %d times' % (cl, len(W.sent)))
            sent_ob(s, W.sent[0], shape, method, 'http://h.com', args, [('Accept', 'application/json')] if accept else [], cl)
            s.same_ob(o.value, s.items(rr)[1], 'response', '%s: response returned' % cl)
            got(s, o.value, ans, cl)
            s.check(all(h.closed for h in s.I.handles), 'closed', '%s: a file opened for the upload is left open' % cl)
            s.check(not W.sent[0]['files'] or not any(W.sent[0]['open']), 'closed', '%s: a file of the upload is closed before it is sent' % cl)
        run.explore('%s %s%s' % (cl, shape, '' if method == 'post' else ' ' + method), body, setup, version=CLIENTS[cl][1], mods=MODS)
    for cl in CLIENTS:
        for sh in SHAPES:
            shapes(cl, sh)
        for m in METHODS:
            shapes(cl, 'query', m, True)
        for sh, m in (('body', 'put'), ('body', 'patch'), ('form', 'put'), ('body', 'delete'), ('none', 'put'), ('none', 'patch'), ('none', 'delete'), ('body', 'get')):
            shapes(cl, sh, m)

    # ---- credentials, options, extra headers
    def extras(cl):
        def setup(s):
            d = shape_doc('all', root={'schemes': ['http', 'https'], 'securityDefinitions': {'A': {'type': 'apiKey', 'name': 'x-key', 'in': 'header'}, 'B': {'type': 'apiKey', 'name': 'k', 'in': 'query'}}},
                          security=[{'A': []}, {'B': []}], produces=['application/x+acc', 'application/json'])
            app = app_of(s, d)
            sec = s.must('pyswagger.core:Security', app)
            ka, kb = s.token('ka', nochars=NAMEX), s.token('kb', nochars=NAMEX)
            s.must(s.attr(sec, 'update_with'), 'A', ka)
            s.must(s.attr(sec, 'update_with'), 'B', kb)
            return app, client(s, cl, sec), ka, kb

        def body(s, pre):
            app, c, ka, kb = pre
            W.sent, W.answers, W.fail = [], [], False
            args = shape_args(s, 'all')
            ans = answer(s)
            rr = s.I_call(op_of(s, app), args[0]).value
            net, hv = s.token('net', nochars=NAMEX), s.token('hv', nochars=NAMEX)
            opt = s.choice('options', 'none', 'netloc', 'scheme', 'both')
            hs = s.choice('headers', 'none', 'dict', 'list')
            kw, base = {}, None
            od = ([('url_netloc', net)] if opt in ('netloc', 'both') else []) + ([('url_scheme', 'ftp')] if opt in ('scheme', 'both') else [])
            if opt != 'none':
                kw['opt'] = s.dict(*od)
            if hs != 'none':
                kw['headers'] = s.dict(('x-own', hv)) if hs == 'dict' else s.list(('x-own', hv))
            o = send(s, c, rr, **kw)
            s.check(o.ok, 'send', lambda: '%s: %r' % (cl, o), o.site)
            s.check(len(W.sent) == 1, 'send', lambda: '%s: sent %d times' % (cl, len(W.sent)))
            host = net if opt in ('netloc', 'both') else 'h.com'
            if opt in ('scheme', 'both'):
                base = s.cat('ftp://', host)
            else:
                u = W.sent[0]['url']
                base = s.cat('http://' if s.must(s.attr(u, 'startswith'), 'http://') else 'https://', host)
            a = (args[0], args[1] + [('k', kb)], args[2] + [('x-key', ka)], args[3], args[4])
            sent_ob(s, W.sent[0], 'all', 'post', base, a, [('Accept', 'application/x+acc')] + ([('x-own', hv)] if hs != 'none' else []), cl)
            got(s, o.value, ans, cl)
        run.explore('%s credentials, options and headers' % cl, body, setup, version=CLIENTS[cl][1], mods=MODS)

    # ---- schemes
    def schemes(cl, decl_, prefer):
        def setup(s):
            return app_of(s, shape_doc('query', root={'schemes': decl_})), client(s, cl)

        def body(s, pre):
            app, c = pre
            W.sent, W.answers, W.fail = [], [], False
            args = shape_args(s, 'query')
            answer(s)
            rr = s.I_call(op_of(s, app), args[0]).value
            if prefer:
                s.I.setattr_(s.items(rr)[0], 'scheme', prefer)
            o = send(s, c, rr)
            common = [x for x in decl_ if x in ('http', 'https')]
            if not common or prefer and prefer not in common:
                s.check(not o.ok, 'scheme', lambda: '%s: schemes %s, preferred %s: sent although no scheme fits' % (cl, decl_, prefer))
                s.check(not W.sent, 'scheme', 'sent although no scheme fits')
                return
            s.check(o.ok, 'send', lambda: '%s: %r' % (cl, o), o.site)
            u = W.sent[0]['url']
            sch = [x for x in common if s.must(s.attr(u, 'startswith'), x + '://')]
            s.check(sch and (not prefer or sch == [prefer]), 'scheme', lambda: '%s: schemes %s, preferred %s: sent to %s' % (cl, decl_, prefer, show(u)))
            sent_ob(s, W.sent[0], 'query', 'post', sch[0] + '://h.com', args, [], cl)
        run.explore('%s schemes %s preferred %s' % (cl, decl_, prefer), body, setup, version=CLIENTS[cl][1], mods=MODS)
    for cl in CLIENTS:
        extras(cl)
        for d in (['http'], ['https'], ['http', 'https'], ['https', 'ws'], ['ws'], ['wss', 'http']):
            schemes(cl, d, None)
            schemes(cl, d, 'https')

    # ---- the same pair sent again
    def again(cl, shape):
        def setup(s):
            return app_of(s, shape_doc(shape)), client(s, cl)

        def body(s, pre):
            app, c = pre
            W.sent, W.answers, W.fail = [], [], False
            args = shape_args(s, shape)
            a1, a2 = answer(s, '1', 2), answer(s, '2', 1, status=404)
            rr = s.I_call(op_of(s, app), args[0]).value
            first = s.choice('first', 'plain', 'options')
            o = send(s, c, rr, **({'opt': s.dict(('url_netloc', 'other')), 'headers': s.dict(('x-first', 'x'))} if first == 'options' else {}))
            s.check(o.ok, 'send', lambda: '%s: %r' % (cl, o), o.site)
            got(s, o.value, a1, cl + ' first')
            o = send(s, c, rr)
            s.check(o.ok, 'send', lambda: '%s: %r' % (cl, o), o.site)
            s.check(len(W.sent) == 2, 'send', lambda: '%s: sent %d times' % (cl, len(W.sent)))
            sent_ob(s, W.sent[1], shape, 'post', 'http://h.com', args, [], cl + ' again')
            got(s, o.value, a2, cl + ' again')
        run.explore('%s sends %s again' % (cl, shape), body, setup, version=CLIENTS[cl][1], mods=MODS)

    # ---- repeated response headers, decoded bodies
    def responses(cl, kind):
        def setup(s):
            d = opdoc([])
            d['paths']['/a']['get']['responses'] = {'200': {'description': '', 'schema': {'type': 'string'}}}
            app = app_of(s, d)
            from .c08 import codec
            return app, client(s, cl)

        def body(s, pre):
            app, c = pre
            W.sent, W.answers, W.fail = [], [], False
            k = s.token('H', nochars=' ;,\r\n:ABCDEFGHIJKLMNOPQRSTUVWXYZ')
            v = s.sym('v', 'str')
            if kind == 'repeated':
                hd = [(k, s.sym('h1', 'str')), (k, s.sym('h2', 'str'))]
                a = (201, hd, s.sym('raw', 'bytes'))
            else:
                ct = 'text/plain' if kind == 'plain' else 'application/json; charset=utf-8'
                raw = v if kind == 'plain' else s.I.call_ext('json.dumps', [v], {})
                a = (200, [(k, s.sym('h1', 'str')), ('Content-Type', ct)], raw)
            W.answers.append(a)
            o = send(s, c, s.must(op_of(s, app)))
            s.check(o.ok, 'send', lambda: '%s: %r' % (cl, o), o.site)
            got(s, o.value, a, cl)
            if kind != 'repeated':
                s.same_ob(s.attr(o.value, 'data'), v, 'decoded', '%s: decoded body' % cl)
        run.explore('%s response %s' % (cl, kind), body, setup, version=CLIENTS[cl][1], mods=MODS)

    # ---- failing transports
    def failing(cl, shape):
        def setup(s):
            return app_of(s, shape_doc(shape)), client(s, cl)

        def body(s, pre):
            app, c = pre
            W.sent, W.answers, W.fail = [], [], True
            args = shape_args(s, shape)
            rr = s.I_call(op_of(s, app), args[0]).value
            o = send(s, c, rr)
            s.check(not o.ok, 'failure', '%s: the failure of the transport is swallowed' % cl)
            s.check(len(W.sent) == 1, 'failure', lambda: '%s: sent %d times' % (cl, len(W.sent)))
            s.check(all(h.closed for h in s.I.handles), 'closed', '%s: a file opened for the upload is left open' % cl)
            resp = s.items(rr)[1]
            s.same_ob(s.attr(resp, 'status'), None, 'failure', '%s: status after a failure' % cl)
            # the next exchange works
            W.fail = False
            W.sent = []
            ans = answer(s)
            args = shape_args(s, shape, '2')
            rr = s.I_call(op_of(s, app), args[0]).value
            o = send(s, c, rr)
            s.check(o.ok, 'send', lambda: '%s after a failure: %r' % (cl, o), o.site)
            sent_ob(s, W.sent[0], shape, 'post', 'http://h.com', args, [], cl + ' after a failure')
            got(s, o.value, ans, cl)
        run.explore('%s fails on %s' % (cl, shape), body, setup, version=CLIENTS[cl][1], mods=MODS)
    for cl in CLIENTS:
        for sh in ('query', 'form', 'body', 'disk file'):
            again(cl, sh)
            failing(cl, sh)
        for k in ('json', 'plain') + (('repeated',) if cl != 'requests' else ()):
            responses(cl, k)

    # ---- options of the clients themselves
    def sendopt():
        def setup(s):
            return app_of(s, shape_doc('query'))

        def body(s, app):
            W.sent, W.answers, W.fail = [], [], False
            v = s.opaque('v')
            c = s.must(CLIENTS['requests'][0], send_opt=s.dict(('verify', v)))
            ans = answer(s)
            args = shape_args(s, 'query')
            o = send(s, c, s.I_call(op_of(s, app), args[0]).value)
            s.check(o.ok, 'send', lambda: '%r' % (o,), o.site)
            ev = s.events('options')
            s.check(len(ev) == 1 and s.same(ev[0].kw.get('verify'), v), 'send options', 'the send options do not reach the session')
            got(s, o.value, ans, 'requests')
        run.explore('requests send options', body, setup, mods=MODS)
    sendopt()

    def cookie(keep):
        def setup(s):
            app = app_of(s, shape_doc('query'))
            W.sent, W.answers, W.fail = [], [], False
            return app, s.must(CLIENTS['webapp2'][0], s.opaque('wsgi app'), keep_cookie=keep)

        def body(s, pre):
            app, c = pre
            W.sent, W.answers, W.fail = [], [], False
            ck = s.token('cookie', nochars=NAMEX)
            W.answers += [(200, [('Set-Cookie', ck)], b''), (200, [], b''), (200, [], b'')]
            for i in range(3):
                args = shape_args(s, 'query', str(i))
                o = send(s, c, s.I_call(op_of(s, app), args[0]).value)
                s.check(o.ok, 'send', lambda: '%r' % (o,), o.site)
                sent_ob(s, W.sent[i], 'query', 'post', 'http://h.com', args, [('Cookie', ck)] if keep and i else [], 'request %d' % i)
        run.explore('webapp2 cookie %s' % keep, body, setup, version=CLIENTS['webapp2'][1], mods=MODS)
    cookie(True)
    cookie(False)
