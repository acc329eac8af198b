"""Responses.  Operations declaring any subset of a response for the status, for another status and for default (inline or by
reference, with and without schema and headers) get generic bodies and headers in one or two steps: the schema that converts
the body, the codec that decodes it, the declared header conversion and the collected header values are compared with the
specified ones."""
from .common import *

UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def decoded(name, v):
    return T('decoded', name, v, kinds=STR)


def codec(s, app, name, mimes):
    def dec(I, a, kw):
        I.event('decode', [name] + list(a[1:]), kw)
        return decoded(name, s.R(a[1]))
    ob = s.I.new_obj(s.I.BUILTINS['object'])
    ob.cls = s.I.make_class('Codec', [s.I.BUILTINS['object']], {'unmarshal': Builtin('unmarshal', dec)})
    for m in mimes:
        s.must(s.attr(s.attr(app, 'mime_codec'), 'register'), m, ob)


def made(tag, v):
    return T('made', tag, v, kinds=STR)


def prims(s, app, tags):
    """one handler per format, so that what converted a value is visible"""
    for t in tags:
        def mk(I, a, kw, t=t):
            I.event('make', [t] + list(a[1:]), kw)
            return made(t, s.R(a[1]))
        s.must(s.attr(s.attr(app, 'prim_factory'), 'register'), 'string', t, s.fn('handler', mk))


def response(kind, tag):
    """kind: schema, ref (schema by reference), none; or a reference to a response"""
    r = {'description': tag}
    if kind in ('schema', 'response ref'):
        r['schema'] = {'type': 'string', 'format': 's' + tag}
    if kind == 'ref':
        r['schema'] = {'$ref': '#/definitions/' + tag}
    r['headers'] = {'X-A': {'type': 'string', 'format': 'h' + tag}}
    return r


def document(kinds):
    """kinds: {'200': kind, '404': kind, 'default': kind}"""
    rs, defs, shared = {}, {}, {}
    for code, k in kinds.items():
        tag = code
        r = response(k, tag)
        if k == 'ref':
            defs[tag] = {'type': 'string', 'format': 's' + tag}
        if k == 'response ref':
            shared[tag] = r
            r = {'$ref': '#/responses/' + tag}
        rs[code] = r
    return opdoc([], responses=rs, root={'definitions': defs, 'responses': shared})


def prepared(s, kinds):
    app = app_of(s, document(kinds))
    prims(s, app, [x + c for c in kinds for x in 'sh'])
    codec(s, app, 'json', ['application/json'])
    codec(s, app, 'A', ['application/x-a'])
    codec(s, app, 'B', ['text/x-b'])
    return app, op_of(s, app)


def read_of(s, ctx):
    """the value is converted as one that was received"""
    return s.truth(s.item(ctx, 'read')) if s.I.contains(ctx, 'read') else False


def effective(kinds, status):
    return str(status) if str(status) in kinds else 'default' if 'default' in kinds else None


def header_is(s, resp, want, what):
    h = s.attr(resp, 'header')
    s.check(len(s.items(h)) == len(want), 'header', lambda: '%s: headers %s, specified %s' % (what, [show(x) for x in s.items(h)], [show(x) for x, _ in want]))
    for n, vs in want:
        s.check(s.I.contains(h, n), 'header', lambda: '%s: header %s is missing' % (what, show(n)))
        got = s.items(s.item(h, n))
        s.check(len(got) == len(vs), 'header', lambda: '%s: header %s is %s, specified %s' % (what, show(n), [show(x) for x in got], [show(x) for x in vs]))
        for a, b in zip(got, vs):
            s.same_ob(a, b, 'header', '%s: value of header %s' % (what, show(n)))


CTS = {None: 'json', 'application/x-a': 'A', 'Application/X-A': 'A', 'application/x-a; charset=utf-8': 'A', 'text/x-b ;q=1;r=2': 'B',
       'APPLICATION/JSON;charset=x': 'json'}


def check(run):
    # ---- which declaration and which codec
    def select(kinds):
        def setup(s):
            return prepared(s, kinds)

        def body(s, pre):
            app, op = pre
            resp = s.items(s.must(op))[1]
            status = s.choice('status', 200, 404, 500, '200')
            ct = s.choice('content type', *CTS)
            spelled = s.choice('spelled', 'Content-Type', 'content-type', 'CONTENT-TYPE') if ct else None
            raw = s.sym('raw', 'str', 'bytes')
            only = s.choice('raw only', None, True, False) if not ct else None
            if only is not None:
                s.I.setattr_(resp, 'raw_body_only', only)
            hv = s.sym('hv', 'str')
            hs = [('X-A', hv)] + ([(spelled, ct)] if ct else [])
            if s.choice('order', 0, 1):
                hs.reverse()
            shape = s.choice('headers as', 'dict', 'list')
            ho = s.dict(*hs) if shape == 'dict' else s.list(*hs)
            steps = s.choice('steps', 'one', 'status first', 'body last')
            if steps == 'one':
                calls = [dict(status=status, raw=raw, header=ho)]
            elif steps == 'status first':
                calls = [dict(status=status), dict(raw=raw, header=ho)]
            else:
                calls = [dict(status=status, header=ho), dict(raw=raw)]
            for kw in calls:
                o = s.I_call(s.attr(resp, 'apply_with'), kw)
                s.check(o.ok, 'accept', lambda: 'apply_with(%s): %r' % (sorted(kw), o), o.site)
                s.same_ob(o.value, resp, 'chaining', 'result of apply_with')
            s.same_ob(s.attr(resp, 'status'), status, 'status', 'status')
            s.same_ob(s.attr(resp, 'raw'), raw, 'raw', 'raw body')
            code = effective(kinds, status)
            header_is(s, resp, [('X-A', [made('h' + code, hv) if code else hv])] + ([(spelled, [ct])] if ct else []), 'status %s' % status)
            data = s.attr(resp, 'data')
            if code is None or kinds[code] == 'none' or only:
                s.same_ob(data, None, 'raw only', 'data of a body without declaration')
                s.check(not s.events('decode'), 'raw only', 'a body without declaration is decoded')
                return
            s.same_ob(data, made('s' + code, decoded(CTS[ct], raw)), 'decoded', 'status %s: decoded body' % status)
            ev = s.events('decode')
            s.check(len(ev) == 1, 'decoded', '%d decodings' % len(ev))
            for k, v in (('_type', 'string'), ('_format', 's' + code)):
                if k in ev[0].kw:
                    s.same_ob(ev[0].kw[k], v, 'decoded', 'argument %s of the codec' % k)
            for e in s.events('make'):
                s.check(len(e.args) < 4 or read_of(s, e.args[3]), 'read', 'the value is not converted as a received one')
        run.explore('responses %s' % ', '.join('%s: %s' % x for x in sorted(kinds.items())) if kinds else 'no responses', body, setup)

    for kinds in ({}, {'200': 'schema'}, {'default': 'schema'}, {'404': 'schema'}, {'200': 'schema', 'default': 'schema'}, {'200': 'none', 'default': 'schema'},
                  {'200': 'schema', 'default': 'none'}, {'200': 'ref', '404': 'schema', 'default': 'ref'}, {'200': 'response ref', 'default': 'response ref'},
                  {'200': 'response ref', '404': 'none'}, {'404': 'ref', 'default': 'none'}):
        select(kinds)

    # ---- generic media types
    def media():
        def setup(s):
            app = app_of(s, document({'200': 'schema'}))
            prims(s, app, ['s200'])
            ct = [s.token('t%d' % i, nochars=' ;,\t\r\n"' + UP) for i in range(2)]
            for i in range(2):
                codec(s, app, 'c%d' % i, [ct[i]])
            return op_of(s, app), ct

        def body(s, pre):
            op, ct = pre
            resp = s.items(s.must(op))[1]
            n = s.choice('values', 1, 2)
            par = s.choice('parameters', '', '; charset=utf-8', ' ; q=1')
            hs = [('Content-Type', s.cat(ct[i], par)) for i in range(n)]
            raw = s.sym('raw', 'str')
            s.must(s.attr(resp, 'apply_with'), status=200, raw=raw, header=s.list(*hs))
            header_is(s, resp, [('content-type', [v for _, v in hs])], 'media type')
            s.same_ob(s.attr(resp, 'data'), made('s200', decoded('c0', raw)), 'decoded', 'body of the first media type')
            # a media type without codec is not silently taken as another one
            resp2 = s.items(s.must(op))[1]
            o = s.meth(resp2, 'apply_with', status=200, raw=raw, header=s.list(('Content-Type', s.token('other', nochars=' ;,\t\r\n"' + UP))))
            s.check(not o.ok, 'unregistered', lambda: 'media type without codec: %r' % (o,), o.site)
        run.explore('generic media types', body, setup)
    media()

    # ---- header collection
    def collect(names, steps):
        def setup(s):
            return prepared(s, {'200': 'schema'})

        def body(s, pre):
            app, op = pre
            resp = s.items(s.must(op))[1]
            tok = {n: s.token('n' + n, nochars=NAMEX + UP) for n in 'xy'}
            hs = [(tok.get(n, n), s.sym('v%d' % i, 'str')) for i, n in enumerate(names)]
            want = []
            for n, v in hs:
                k = n.lower() if isinstance(n, str) else n
                for g in want:
                    if g[0] is k or g[0] == k:
                        g[1].append(v)
                        break
                else:
                    want.append((k, [v]))
            want = [(n, [made('h200', v) for v in vs] if n == 'x-a' else vs) for n, vs in want]
            shape = s.choice('headers as', 'list', 'tuple', 'dict') if len(set(names)) == len(names) else 'list'
            mk = lambda l: s.list(*l) if shape == 'list' else tuple(l) if shape == 'tuple' else s.dict(*l)
            if steps == 1:
                s.must(s.attr(resp, 'apply_with'), status=200, header=mk(hs))
            else:
                s.must(s.attr(resp, 'apply_with'), status=200, header=mk(hs[:1]))
                s.must(s.attr(resp, 'apply_with'), header=mk(hs[1:]))
            header_is(s, resp, want, 'collected')
            s.same_ob(s.attr(resp, 'raw'), None, 'raw', 'raw body without body')
            s.same_ob(s.attr(resp, 'data'), None, 'raw', 'data without body')
        run.explore('headers %s in %d steps' % (' '.join(names), steps), body, setup)
    for names in (('x',), ('x', 'y'), ('x', 'x'), ('x', 'y', 'x'), ('X-A',), ('X-A', 'X-A'), ('X-A', 'x', 'X-A'), ('Link', 'LINK', 'link'), ('x', 'Link', 'link')):
        for steps in (1, 2):
            collect(names, steps)

    # ---- no status
    def nostatus(kinds):
        def setup(s):
            return prepared(s, kinds)

        def body(s, pre):
            app, op = pre
            resp = s.items(s.must(op))[1]
            raw = s.sym('raw', 'str', 'bytes')
            if s.choice('header first', False, True):
                s.must(s.attr(resp, 'apply_with'), header=s.dict(('X-B', 'v')))
            o = s.meth(resp, 'apply_with', raw=raw)
            s.check(not o.ok, 'no status', lambda: 'a body without status is accepted: %r' % (o,), o.site)
            s.same_ob(s.attr(resp, 'data'), None, 'no status', 'data')
        run.explore('no status, %s' % sorted(kinds), body, setup)
    for kinds in ({}, {'200': 'schema'}, {'default': 'schema'}):
        nostatus(kinds)
