"""Credentials.  Documents with generic security schemes of every kind, every effective security list (of the operation and
of the document) and every subset and history of registered credentials: the headers and query pairs of the authorised,
prepared request are exactly the declared ones plus the credentials that the effective security names."""
from .common import *
from .c07 import decl

UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
KINDS = ('basic', 'key header', 'key query', 'oauth2')


def scheme_doc(s, kind, kname):
    if kind == 'basic':
        return {'type': 'basic'}
    if kind == 'oauth2':
        return {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'u', 'scopes': {}}
    return {'type': 'apiKey', 'name': kname, 'in': kind.split()[1]}


def credential(s, kind, tag):
    if kind == 'basic':
        u, p = s.token('user' + tag, nochars='', ascii=True), s.token('pwd' + tag, ascii=True)
        w = s.I.call_ext('base64.b64encode', [s.I.mk_encode(s.cat(u, ':', p), 'ascii')], {})
        return (u, p), s.cat('Basic ', s.must(s.attr(w, 'decode'), 'ascii'))
    c = s.token('cred' + tag)
    return c, c


def place(kind, kname, cred):
    """(location, name, value)"""
    return {'basic': ('header', 'Authorization', cred), 'oauth2': ('header', 'access_token', cred),
            'key header': ('header', kname, cred), 'key query': ('query', kname, cred)}[kind]


def observed(s, req, want, q, h, what):
    s.must(s.attr(req, 'prepare'))
    pairs = [s.items(x) for x in s.items(s.attr(req, 'query'))]
    wq = ([('q', q)] if q is not None else []) + [(n, v) for loc, n, v in want if loc == 'query']
    s.check(len(pairs) == len(wq), 'query', lambda: '%s: query pairs %s, specified %s' % (what, [show(p[0]) for p in pairs], [show(w[0]) for w in wq]))
    for n, v in wq:
        got = [p for p in pairs if s.same(p[0], n)]
        s.check(len(got) == 1, 'query', lambda: '%s: %d query pairs named %s' % (what, len(got), show(n)))
        s.same_ob(got[0][1], v, 'query', '%s: query pair %s' % (what, show(n)))
    hd = s.attr(req, 'header')
    wh = ([('h', h)] if h is not None else []) + [(n, v) for loc, n, v in want if loc == 'header']
    s.check(len(s.items(hd)) == len(wh), 'header', lambda: '%s: headers %s, specified %s' % (what, [show(x) for x in s.items(hd)], [show(w[0]) for w in wh]))
    for n, v in wh:
        s.check(s.I.contains(hd, n), 'header', lambda: '%s: header %s is missing' % (what, show(n)))
        s.same_ob(s.item(hd, n), v, 'header', '%s: header %s' % (what, show(n)))


def check(run):
    # ---- which schemes are effective: own/document lists over two schemes, every registered subset
    def effective(ka, kb, own, root):
        """own/root: None (absent), or a list of lists of scheme indexes (one requirement object each)"""
        def setup(s):
            ns = [name(s, 'A'), name(s, 'B')]
            ks = [s.token('key' + x, nochars=NAMEX + UP) for x in 'AB']
            mk = lambda l: [{ns[i]: [] for i in r} for r in l]
            rk = {'securityDefinitions': {ns[i]: scheme_doc(s, (ka, kb)[i], ks[i]) for i in range(2)}}
            if root is not None:
                rk['security'] = mk(root)
            o = opdoc([decl('q', 'query'), decl('h', 'header')], root=rk, **({'security': mk(own)} if own is not None else {}))
            o['paths']['/b'] = {'get': {'operationId': 'op2', 'responses': resp()}}
            return app_of(s, o), ns, ks

        def body(s, pre):
            app, ns, ks = pre
            sec = s.must('pyswagger.core:Security', app)
            reg = s.choice('registered', (), (0,), (1,), (0, 1), (1, 0))
            creds = {}
            for i in reg:
                c, w = credential(s, (ka, kb)[i], str(i))
                o = s.meth(sec, 'update_with', ns[i], c)
                s.check(o.ok, 'register', lambda: '%r' % (o,), o.site)
                creds[i] = w
            q, h = s.sym('vq', 'str'), s.sym('vh', 'str')
            times = s.choice('applied', 1, 2)
            for oid, lst, args in (('op1', own if own is not None else root, dict(q=q, h=h)), ('op2', root, {})):
                req = s.items(s.I_call(op_of(s, app, oid), args).value)[0]
                for _ in range(times):
                    o = s.call(sec, req)
                    s.check(o.ok, 'apply', lambda: 'applying credentials: %r' % (o,), o.site)
                    s.same_ob(o.value, req, 'apply', 'result of applying')
                named = sorted(set(i for r in lst or [] for i in r))
                want = [place((ka, kb)[i], ks[i], creds[i]) for i in named if i in creds]
                if len(set(w[1] if isinstance(w[1], str) else show(w[1]) for w in want)) < len(want):
                    # two schemes writing the same header: either credential is fine
                    raise Skip()
                observed(s, req, want, args.get('q'), args.get('h'), oid)
        run.explore('%s and %s, operation %s, document %s' % (ka, kb, own, root), body, setup)

    for k in KINDS:
        for other in KINDS:
            if k != other:
                effective(k, other, [[0]], None)
    for own in (None, [], [[0]], [[1]], [[0], [1]], [[0, 1]]):
        for root in (None, [], [[0]], [[1]], [[0], [1]], [[0, 1]]):
            effective('key header', 'key query', own, root)
    for k in KINDS:
        effective(k, 'key header' if k != 'key header' else 'basic', None, [[0]])
        effective(k, 'key query' if k != 'key query' else 'oauth2', [], [[0]])
    for a, b in (('key header', 'key header'), ('key query', 'key query')):
        effective(a, b, [[0, 1]], None)
        effective(a, b, [[1]], [[0]])

    # ---- registration history
    def history(kind):
        def setup(s):
            o = opdoc([], root={'securityDefinitions': {'A': scheme_doc(s, kind, 'K')}}, security=[{'A': []}])
            return app_of(s, o)

        def body(s, app):
            sec = s.must('pyswagger.core:Security', app)
            other = s.must('pyswagger.core:Security', app)
            op = op_of(s, app)
            last = None
            for i in range(3):
                ev = s.choice('step %d' % i, 'register', 'fail', 'request', 'other')
                if ev == 'register':
                    c, last = credential(s, kind, str(i))
                    s.must(s.attr(sec, 'update_with'), 'A', c)
                elif ev == 'fail':
                    o = s.meth(sec, 'update_with', s.token('unknown'), credential(s, kind, 'x')[0])
                    s.check(o.is_exc('ValueError'), 'unknown name', lambda: 'unknown security name, specified ValueError, %r' % (o,), o.site)
                elif ev == 'other':
                    s.must(s.attr(other, 'update_with'), 'A', credential(s, kind, 'o%d' % i)[0])
                else:
                    req = s.items(s.must(op))[0]
                    s.must(sec, req)
                    observed(s, req, [place(kind, 'K', last)] if last is not None else [], None, None, 'step %d' % i)
            req = s.items(s.must(op))[0]
            s.must(sec, req)
            observed(s, req, [place(kind, 'K', last)] if last is not None else [], None, None, 'last request')
        run.explore('history, %s' % kind, body, setup)
    for k in KINDS:
        history(k)

    # ---- the same request gets a newer credential
    def renewed(kind):
        def setup(s):
            return app_of(s, opdoc([decl('q', 'query'), decl('h', 'header')], root={'securityDefinitions': {'A': scheme_doc(s, kind, 'K')}}, security=[{'A': []}]))

        def body(s, app):
            sec = s.must('pyswagger.core:Security', app)
            q, h = s.sym('q', 'str'), s.sym('h', 'str')
            req = s.items(s.must(op_of(s, app), q=q, h=h))[0]
            for i in range(2):
                c, w = credential(s, kind, str(i))
                s.must(s.attr(sec, 'update_with'), 'A', c)
                s.must(sec, req)
                observed(s, req, [place(kind, 'K', w)], q, h, 'request %d' % i)
                s.must(s.attr(req, 'reset'))
        run.explore('renewed credential, %s' % kind, body, setup)
    for k in KINDS:
        renewed(k)

    # ---- unknown types
    def types():
        def setup(s):
            t = s.token('type')
            return app_of(s, opdoc([], root={'securityDefinitions': {'A': {'type': t}}}))

        def body(s, app):
            o = s.meth(s.must('pyswagger.core:Security', app), 'update_with', 'A', s.token('c'))
            s.check(o.is_exc('ValueError'), 'unknown type', lambda: 'unknown type of security, specified ValueError, %r' % (o,), o.site)
        run.explore('unknown type', body, setup)
    types()

    # ---- the client applies them once
    def client():
        def setup(s):
            return app_of(s, opdoc([decl('q', 'query')], root={'securityDefinitions': {'A': scheme_doc(s, 'key query', 'K')}}, security=[{'A': []}]))

        def body(s, app):
            sec = s.must('pyswagger.core:Security', app)
            c = s.token('c')
            s.must(s.attr(sec, 'update_with'), 'A', c)
            with_sec = s.choice('client has credentials', True, False)
            cl = s.must('pyswagger.core:BaseClient', *([sec] if with_sec else []))
            q = s.sym('q', 'str')
            rr = s.must(op_of(s, app), q=q)
            for i in range(s.choice('sent', 1, 2)):
                out = s.items(s.must(s.attr(cl, 'request'), rr))
                s.same_ob(out[0], s.items(rr)[0], 'client', 'request returned by the client')
                s.same_ob(out[1], s.items(rr)[1], 'client', 'response returned by the client')
            observed(s, out[0], [('query', 'K', c)] if with_sec else [], q, None, 'client')
        run.explore('client', body, setup)
    client()
