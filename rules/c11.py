"""Reset and reuse.  Requests with generic parameters in every location are prepared with every combination of scheme, content
type and URL options, reset and prepared again; URL, path, query, headers and payload have to be those of an untouched
request of the same call.  Responses are filled by one exchange, reset, and have to behave as fresh ones in the next."""
from .common import *
from .c07 import decl, form
from .c10 import filearg, bounds, expect, header

LOCS = ('path', 'query', 'header')
PAY = ('none', 'form', 'body', 'file')


def document(s, pay, ctypes=()):
    ps = [decl('i', 'path', True), decl('q', 'query'), decl('h', 'header')]
    if pay in ('form', 'file'):
        ps.append(decl('f', 'formData'))
    if pay == 'file':
        ps.append(decl('u', 'file'))
    if pay == 'body':
        ps.append(decl('b', 'body'))
    return opdoc(ps, path='/a/{i}', method='post', root={'schemes': ['http', 'https']}, **({'produces': list(ctypes)} if ctypes else {}))


def args_of(s, pay, tag=''):
    a = {'i': s.sym('i' + tag, 'str'), 'q': s.sym('q' + tag, 'str'), 'h': s.sym('h' + tag, 'str')}
    extra = None
    if pay in ('form', 'file'):
        a['f'] = s.sym('f' + tag, 'str')
    if pay == 'file':
        a['u'], extra = filearg(s, tag, 'disk', ('Content-Type',))
    if pay == 'body':
        a['b'] = s.sym('b' + tag, 'str')
    return a, extra


def seen(s, req, pay, a, extra, scheme, produce, what):
    s.same_ob(s.attr(req, 'url'), s.cat(scheme, '://h.com/v1/a/', quoted(s, a['i'])), 'url', '%s: URL' % what)
    s.same_ob(s.attr(req, 'path'), s.cat('/a/', quoted(s, a['i'])), 'url', '%s: path' % what)
    q = [s.items(x) for x in s.items(s.attr(req, 'query'))]
    s.check(len(q) == 1, 'query', '%s: %d query pairs' % (what, len(q)))
    s.same_ob(q[0][0], 'q', 'query', '%s: query name' % what)
    s.same_ob(q[0][1], a['q'], 'query', '%s: query value' % what)
    want = {'h': a['h']}
    if produce is not None:
        want['Accept'] = produce
    h = s.attr(req, 'header')
    if pay == 'form':
        want['Content-Type'] = 'application/x-www-form-urlencoded'
        s.same_ob(s.attr(req, 'data'), form(s, [('f', a['f'])]), 'payload', '%s: payload' % what)
    elif pay == 'body':
        want['Content-Type'] = 'application/json'
        s.same_ob(s.attr(req, 'data'), s.I.call_ext('json.dumps', [a['b']], {}), 'payload', '%s: payload' % what)
    elif pay == 'file':
        b = bounds(s, req)
        want['Content-Type'] = s.cat('multipart/form-data; boundary=', b)
        fn, hs, data = extra
        s.same_ob(s.attr(req, 'data'), expect(s, b, [('f', a['f'])], [('u', fn, hs, data)], 'utf-8'), 'payload', '%s: payload' % what)
    else:
        s.same_ob(s.attr(req, 'data'), None, 'payload', '%s: payload' % what)
    names = [k for k in s.items(h)]
    s.check(len(names) == len(want), 'header', lambda: '%s: headers %s, specified %s' % (what, [show(k) for k in names], sorted(want)))
    for k, v in want.items():
        s.same_ob(s.item(h, k), v, 'header', '%s: header %s' % (what, k))


OPF = ('path', 'method', 'url', 'base_path', 'consumes', 'produces', 'schemes', 'security', 'cached_schemes', 'operationId', 'tags')


def snapshot(s, op):
    return {f: plain(s, s.attr(op, f)) for f in OPF}


def unchanged(s, op, snap):
    for f in OPF:
        got = plain(s, s.attr(op, f))
        s.check(same_plain(s, got, snap[f]), 'operation', lambda: 'field %s of the operation changed from %s to %s' % (f, snap[f], got))


def same_plain(s, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_plain(s, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_plain(s, x, y) for x, y in zip(a, b))
    return s.same(a, b)


def check(run):
    def reuse(pay):
        def setup(s):
            p = [s.token('p%d' % i, nochars=' ;,') for i in range(2)]
            app = app_of(s, document(s, pay, p))
            return op_of(s, app), p

        def body(s, pre):
            op, ps = pre
            snap = snapshot(s, op)
            a, extra = args_of(s, pay)
            req = s.items(s.I_call(op, a).value)[0]
            # the first exchange: any scheme, any option; complete, or left before or after preparing
            first = s.choice('first exchange', 'none', 'prepared', 'prepared https', 'patched', 'patched first', 'own encoding', 'failed')
            produce = ps[0]
            if first == 'failed':
                s.must(s.attr(req, 'produce'), s.token('undeclared'))
                o = s.meth(req, 'prepare')
                s.check(o.is_exc('SchemaError'), 'undeclared', lambda: '%r' % (o,))
                s.must(s.attr(req, 'produce'), ps[1])
                produce = ps[1]
            elif first != 'none':
                net = s.token('net', nochars=NAMEX)
                opt = lambda: s.dict(('url_netloc', net), ('url_scheme', s.token('sch', nochars=NAMEX)))
                if first == 'patched first':
                    s.must(s.attr(req, '_patch'), opt())
                s.must(s.attr(req, 'prepare'), **{'prepared https': {'scheme': 'https'}, 'own encoding': {'encoding': 'latin-1'}}.get(first, {}))
                if first in ('prepared', 'own encoding') and (first == 'prepared' or pay != 'file'):
                    seen(s, req, pay, a, extra, 'http', produce, 'first exchange')
                if first == 'patched':
                    s.must(s.attr(req, '_patch'), opt())
            for i in range(2):
                s.must(s.attr(req, 'reset'))
                sch = ('https', 'http')[i]
                o = s.meth(req, 'prepare', scheme=sch)
                s.check(o.ok, 'again', lambda: 'prepare after reset: %r' % (o,), o.site)
                seen(s, req, pay, a, extra, sch, produce, 'exchange %d' % (i + 2))
            unchanged(s, op, snap)
            # a later call is not affected
            b, extra = args_of(s, pay, "'")
            req2 = s.items(s.I_call(op, b).value)[0]
            s.must(s.attr(req2, 'prepare'))
            seen(s, req2, pay, b, extra, 'http', ps[0], 'later request')
        run.explore('reuse of a request, payload %s' % pay, body, setup)
    for pay in PAY:
        reuse(pay)

    def interleaved(pay):
        def setup(s):
            return op_of(s, app_of(s, document(s, pay)))

        def body(s, op):
            a, ea = args_of(s, pay, '1')
            b, eb = args_of(s, pay, '2')
            r1 = s.items(s.I_call(op, a).value)[0]
            r2 = s.items(s.I_call(op, b).value)[0]
            s.must(s.attr(r1, 'prepare'))
            if s.choice('between', 'reset', 'patch') == 'reset':
                s.must(s.attr(r2, 'reset'))
            else:
                s.must(s.attr(r2, '_patch'), s.dict(('url_netloc', s.token('net', nochars=NAMEX))))
                s.must(s.attr(r2, 'reset'))
            s.must(s.attr(r2, 'prepare'), scheme='https')
            seen(s, r1, pay, a, ea, 'http', None, 'first request')
            seen(s, r2, pay, b, eb, 'https', None, 'second request')
            s.must(s.attr(r1, 'reset'))
            seen(s, r2, pay, b, eb, 'https', None, 'second request after reset of the first')
            s.must(s.attr(r1, 'prepare'), scheme='https')
            seen(s, r1, pay, a, ea, 'https', None, 'first request again')
        run.explore('two requests, payload %s' % pay, body, setup)
    for pay in PAY:
        interleaved(pay)

    # ---- the scheme of a request survives, the caller's scheme list is only consumed
    def scheme():
        def setup(s):
            return op_of(s, app_of(s, document(s, 'none')))

        def body(s, op):
            a, _ = args_of(s, 'none')
            req = s.items(s.I_call(op, a).value)[0]
            s.I.setattr_(req, 'scheme', 'https')
            for i in range(2):
                o = s.meth(req, 'prepare', scheme=s.list('https', 'http'))
                s.check(o.ok, 'again', lambda: '%r' % (o,), o.site)
                s.same_ob(s.attr(req, 'url'), s.cat('https://h.com/v1/a/', quoted(s, a['i'])), 'url', 'URL')
                s.must(s.attr(req, 'reset'))
        run.explore('preferred scheme', body, setup)
    scheme()

    # ---- responses
    def responses(first, second):
        def setup(s):
            o = opdoc([])
            rs = o['paths']['/a']['get']['responses']
            rs['200'] = {'description': '', 'schema': {'type': 'string'}, 'headers': {'X-A': {'type': 'string'}}}
            rs['default'] = {'description': ''}
            app = app_of(s, o)
            return op_of(s, app)

        def body(s, op):
            resp = s.items(s.must(op))[1]
            st = {'200': 200, 'other': 404}

            def exchange(r, which, tag):
                v = s.sym('v' + tag, 'str')
                raw = s.I.call_ext('json.dumps', [v], {})
                if which == 'header only':
                    s.must(s.attr(r, 'apply_with'), status=200, header=s.dict(('X-A', v), ('X-B', v)))
                    return v, None, None, 200, 2
                if which == 'repeated':
                    s.must(s.attr(r, 'apply_with'), status=200, header=s.list(('X-A', v), ('X-A', v)), raw=raw)
                    return v, raw, v, 200, 1
                s.must(s.attr(r, 'apply_with'), status=st[which], header=s.dict(('X-A', v)), raw=raw)
                return v, raw, (v if which == '200' else None), st[which], 1

            exchange(resp, first, '1')
            s.must(s.attr(resp, 'reset'))
            s.same_ob(s.attr(resp, 'status'), None, 'reset', 'status')
            s.same_ob(s.attr(resp, 'raw'), None, 'reset', 'raw body')
            s.same_ob(s.attr(resp, 'data'), None, 'reset', 'decoded body')
            s.check(len(s.items(s.attr(resp, 'header'))) == 0, 'reset', 'headers of an earlier exchange are kept')
            o = s.meth(resp, 'apply_with', raw='x')
            s.check(not o.ok, 'reset', 'a body without status is accepted after a reset')
            s.must(s.attr(resp, 'reset'))
            v, raw, data, status, n = exchange(resp, second, '2')
            s.same_ob(s.attr(resp, 'status'), status, 'again', 'status')
            s.same_ob(s.attr(resp, 'raw'), raw, 'again', 'raw body')
            s.same_ob(s.attr(resp, 'data'), data, 'again', 'decoded body')
            h = s.attr(resp, 'header')
            s.check(len(s.items(h)) == n, 'again', 'number of headers')
            got = s.items(s.item(h, 'X-A'))
            s.check(len(got) == (2 if second == 'repeated' else 1), 'again', lambda: 'values of a header: %d' % len(got))
            for g in got:
                s.same_ob(g, v, 'again', 'header value')
            # another response of the same operation
            r2 = s.items(s.must(op))[1]
            s.same_ob(s.attr(r2, 'status'), None, 'independent', 'status of another response')
            s.check(len(s.items(s.attr(r2, 'header'))) == 0, 'independent', 'headers of another response')
        run.explore('response, %s then %s' % (first, second), body, setup)
    for a in ('200', 'other', 'header only', 'repeated'):
        for b in ('200', 'other', 'header only', 'repeated'):
            responses(a, b)
