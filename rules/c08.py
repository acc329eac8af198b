"""Content types.  Operations and documents declaring zero to two generic media types are called with every kind of payload
and every explicit choice of content type and accept: the headers of the prepared request, the codec that encodes the body
and the SchemaError for undeclared types are compared with the specified selection."""
from .common import *
from .c07 import decl, filearg, form

FORM, MULTI = 'application/x-www-form-urlencoded', 'multipart/form-data'


def media(s, n):
    return s.token(n, nochars=' ;,\t\r\n"ABCDEFGHIJKLMNOPQRSTUVWXYZ')


def codec(s, app, types):
    """one codec per media type that records what it encodes"""
    mc = s.attr(app, 'mime_codec')
    for t in types:
        ob = s.I.new_obj(s.I.BUILTINS['object'])

        def enc(I, a, kw, t=t):
            I.event('marshal', [t] + list(a), kw)
            return T('encoded', s.R(t), s.R(a[-1]), kinds=STR)
        ob.cls = s.I.make_class('Codec', [s.I.BUILTINS['object']], {'marshal': Builtin('marshal', enc)})
        s.must(s.attr(mc, 'register'), t, ob)


def header(s, req, n):
    h = s.attr(req, 'header')
    for k in s.items(h):
        if isinstance(k, str) and k.lower() == n:
            return s.item(h, k)
    return None


def check(run):
    # ---- body payloads
    def bodies(nown, nroot):
        def setup(s):
            own = [media(s, 'own%d' % i) for i in range(nown or 0)]
            root = [media(s, 'root%d' % i) for i in range(nroot)]
            kw = {'consumes': own} if nown is not None else {}
            named = {'$ref': '#/definitions/N'}
            o = opdoc([decl('b', 'body')], method='post', root=dict({'definitions': {'N': {'type': 'string', 'format': 'password'}}}, **({'consumes': root} if nroot else {})), **kw)
            o['paths']['/a']['post']['parameters'][0]['schema'] = named
            app = app_of(s, o)
            eff = own if nown is not None else root
            other = media(s, 'other')
            codec(s, app, own + root + [other])
            return op_of(s, app), eff, other

        def body(s, pre):
            op, eff, other = pre
            v = s.sym('v', 'str')
            explicit = s.choice('consume', None, 'other', *range(len(eff)))
            o = s.I_call(op, {'b': v})
            s.check(o.ok, 'accept', lambda: '%r' % (o,), o.site)
            req = s.items(o.value)[0]
            if explicit is not None:
                ct = other if explicit == 'other' else eff[explicit]
                s.same_ob(s.must(s.attr(req, 'consume'), ct), req, 'chaining', 'result of consume()')
            else:
                ct = eff[0] if eff else 'application/json'
            o = s.meth(req, 'prepare')
            if explicit == 'other' and eff:
                s.check(o.is_exc('SchemaError'), 'undeclared', lambda: 'content type that is not declared, specified SchemaError, %r' % (o,), o.site)
                return
            s.check(o.ok, 'accept', lambda: 'prepare: %r' % (o,), o.site)
            s.same_ob(header(s, req, 'content-type'), ct, 'content type', 'Content-Type')
            if isinstance(ct, str):
                s.same_ob(s.attr(req, 'data'), s.I.call_ext('json.dumps', [v], {}), 'encoding', 'payload')
                return
            ev = s.events('marshal')
            s.check(len(ev) == 1, 'encoding', 'the body is encoded %d times' % len(ev))
            s.same_ob(ev[0].args[0], ct, 'encoding', 'media type of the codec used')
            s.same_ob(ev[0].args[-1], v, 'encoding', 'value handed to the codec')
            for k, w in (('_type', 'string'), ('_format', 'password'), ('name', 'N')):
                s.same_ob(ev[0].kw.get(k), w, 'encoding', 'keyword %s of the codec' % k)
            s.same_ob(s.attr(req, 'data'), T('encoded', s.R(ct), s.R(v), kinds=STR), 'encoding', 'payload')
        run.explore('body, operation declares %s, document %d' % (nown, nroot), body, setup)
    for a, b in ((None, 0), (None, 1), (None, 2), (0, 1), (1, 0), (2, 0), (1, 2), (3, 0)):
        bodies(a, b)

    def nocodec():
        def setup(s):
            t = media(s, 't')
            return op_of(s, app_of(s, opdoc([decl('b', 'body')], method='post', consumes=[t])))

        def body(s, op):
            req = s.items(s.must(op, b=s.sym('v', 'str')))[0]
            o = s.meth(req, 'prepare')
            s.check(o.is_exc('Exception'), 'no codec', lambda: 'a body without codec for its content type has to raise, %r' % (o,), o.site)
        run.explore('no codec for the content type', body, setup)
    nocodec()

    # ---- forms and files
    def forms(kind, position, n):
        """position of the form type among n declared ones (None: not declared)"""
        want = MULTI if kind == 'file' else FORM

        def setup(s):
            ts = [media(s, 't%d' % i) for i in range(n)]
            if position is not None:
                ts[position] = want
            ps = [decl('f', 'formData')] if kind == 'form' else [decl('u', 'file'), decl('f', 'formData')]
            return op_of(s, app_of(s, opdoc(ps, method='post', **({'consumes': ts} if n else {}))))

        def body(s, op):
            v = s.token('v')
            args = {'f': v} if kind == 'form' else {'u': filearg(s, None)}
            if kind == 'file':
                s.I.setitem(args['u'], 'data', stream(s, s.sym('content', 'bytes')))
                args['f'] = v
            o = s.I_call(op, args)
            s.check(o.ok, 'accept', lambda: '%r' % (o,), o.site)
            req = s.items(o.value)[0]
            handle = s.choice('handle_files', True, False) if kind == 'file' else True
            o = s.meth(req, 'prepare', handle_files=handle)
            if not handle:
                s.check(o.ok, 'accept', lambda: 'prepare without file handling: %r' % (o,), o.site)
                s.check(header(s, req, 'content-type') is None, 'content type', 'a request whose multipart encoding is left to the client has no Content-Type yet')
                return
            if n and position is None:
                s.check(o.is_exc('SchemaError'), 'undeclared', lambda: '%s when %s is not declared, specified SchemaError, %r' % (kind, want, o), o.site)
                return
            s.check(o.ok, 'accept', lambda: 'prepare: %r' % (o,), o.site)
            ct = header(s, req, 'content-type')
            if kind == 'form':
                s.same_ob(ct, FORM, 'content type', 'Content-Type of a form')
                s.same_ob(s.attr(req, 'data'), form(s, [('f', v)]), 'encoding', 'payload of a form')
            else:
                s.check(ct is not None and s.must(s.attr(ct, 'startswith'), MULTI + '; boundary='), 'content type', lambda: 'Content-Type %s' % show(ct))
        run.explore('%s, %s of %d declared' % (kind, position, n), body, setup)
    for kind in ('form', 'file'):
        for position, n in ((None, 0), (0, 1), (0, 2), (1, 2), (None, 1), (None, 2)):
            forms(kind, position, n)

    # ---- no payload
    def nothing(which):
        def setup(s):
            ps = {'none': [], 'query': [decl('q', 'query')], 'optional form': [decl('f', 'formData')], 'optional body': [decl('b', 'body')], 'optional file': [decl('u', 'file')]}[which]
            return op_of(s, app_of(s, opdoc(ps, method='post', consumes=[media(s, 't')])))

        def body(s, op):
            req = s.items(s.I_call(op, {'q': s.sym('v', 'str')} if which == 'query' else {}).value)[0]
            o = s.meth(req, 'prepare')
            s.check(o.ok, 'accept', lambda: 'request without payload, %r' % (o,), o.site)
            s.check(header(s, req, 'content-type') is None, 'no payload', 'a request without payload has a Content-Type')
            s.same_ob(s.attr(req, 'data'), None, 'no payload', 'payload')
        run.explore('no payload: %s' % which, body, setup)
    for w in ('none', 'query', 'optional form', 'optional body', 'optional file'):
        nothing(w)

    # ---- falsy bodies are still payloads
    def falsy():
        def setup(s):
            p = decl('b', 'body')
            p['schema'] = {'type': 'integer'}
            return op_of(s, app_of(s, opdoc([p], method='post')))

        def body(s, op):
            v = s.sym('v', 'int')
            req = s.items(s.must(op, b=v))[0]
            s.must(s.attr(req, 'prepare'))
            s.same_ob(header(s, req, 'content-type'), 'application/json', 'content type', 'Content-Type')
            s.same_ob(s.attr(req, 'data'), s.I.call_ext('json.dumps', [v], {}), 'encoding', 'payload')
        run.explore('integer body', body, setup)
    falsy()

    # ---- accept
    def accept(nown, nroot):
        def setup(s):
            own = [media(s, 'own%d' % i) for i in range(nown or 0)]
            root = [media(s, 'root%d' % i) for i in range(nroot)]
            kw = {'produces': own} if nown is not None else {}
            app = app_of(s, opdoc([], root={'produces': root} if nroot else {}, **kw))
            return op_of(s, app), own if nown is not None else root, media(s, 'other')

        def body(s, pre):
            op, eff, other = pre
            explicit = s.choice('produce', None, 'other', *range(len(eff)))
            req = s.items(s.must(op))[0]
            want = eff[0] if eff else None
            if explicit is not None:
                want = other if explicit == 'other' else eff[explicit]
                s.same_ob(s.must(s.attr(req, 'produce'), want), req, 'chaining', 'result of produce()')
            o = s.meth(req, 'prepare')
            if explicit == 'other' and eff:
                s.check(o.is_exc('SchemaError'), 'undeclared', lambda: 'accept that is not declared, specified SchemaError, %r' % (o,), o.site)
                return
            s.check(o.ok, 'accept', lambda: 'prepare: %r' % (o,), o.site)
            got = header(s, req, 'accept')
            if want is None:
                s.check(got is None, 'accept header', lambda: 'Accept %s without any declared type' % show(got))
            else:
                s.same_ob(got, want, 'accept header', 'Accept')
            s.check(header(s, req, 'content-type') is None, 'no payload', 'a request without payload has a Content-Type')
        run.explore('accept, operation declares %s, document %d' % (nown, nroot), body, setup)
    for a, b in ((None, 0), (None, 1), (None, 2), (0, 1), (1, 0), (2, 0), (1, 2), (3, 0)):
        accept(a, b)
