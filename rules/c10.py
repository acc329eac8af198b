"""Multipart framing.  Operations with up to three generic form fields and files are called with arbitrary texts, streams
(delivering text or bytes), disk files and file headers; the payload of the prepared request is compared, byte range by
byte range, with the specified concatenation for the boundary announced in the Content-Type."""
from .common import *
from .c07 import decl
from .c08 import header

QN = ':/?#;@[]%&=+~{}. ,\t|"\r\n!\\'


def fname(s, n):
    return s.token(n, nochars=QN)


def bounds(s, req):
    """the boundary announced by the request"""
    ct = header(s, req, 'content-type')
    s.check(ct is not None, 'announce', 'no Content-Type')
    pre = 'multipart/form-data; boundary='
    ct = s.R(ct)
    ps = list(ct.args) if isinstance(ct, Term) and ct.op == 'cat' else [ct]
    s.check(isinstance(ps[0], str) and ps[0].startswith(pre), 'announce', lambda: 'Content-Type is %s' % show(ct))
    b = s.cat(ps[0][len(pre):], *ps[1:])
    s.check(isinstance(s.R(b), Term) and len(s.R(b).args) > 0, 'boundary', lambda: 'the boundary %s is the same for every request' % show(b))
    return b


def expect(s, b, fields, files, enc):
    e = lambda x: s.I.mk_encode(x, enc)
    out = []
    for n, v in fields:
        out += [e(s.cat('--', b, '\r\nContent-Disposition: form-data; name="', n, '"\r\n\r\n')), e(v), b'\r\n']
    for n, fn, hs, data in files:
        out.append(e(s.cat('--', b, '\r\nContent-Disposition: form-data; name="', n, '"; filename="', fn, '"\r\n')))
        for k in ('Content-Type', 'Content-Transfer-Encoding'):
            if k in hs:
                out.append(e(s.cat(k + ': ', hs[k], '\r\n')))
        out += [b'\r\n', e(data) if s.I.has_kind(data, ['str']) else data, b'\r\n']
    out.append(e(s.cat('--', b, '--\r\n')))
    return s.I.mk_bcat(*out)


def closed(s):
    for h in s.I.handles:
        s.check(h.closed, 'closed', '%s%s is left open' % (h.name, show(h.args)))


def filearg(s, tag, src, hs):
    """(argument, specified (filename, headers, content))"""
    fn = fname(s, 'fn' + tag)
    headers = {k: s.sym('h' + k + tag, 'str') for k in hs}
    d = {'filename': fn}
    if hs:
        d['header'] = s.dict(*headers.items())
    if src == 'disk':
        data = T('content', fn, 'rb', kinds=BYTES)
    else:
        data = s.sym('content' + tag, 'bytes' if src == 'bytes' else 'str')
        d['data'] = stream(s, data)
    return s.dict(*d.items()), (fn, headers, data)


def check(run):
    def case(what, nform, filespecs, method='post'):
        """filespecs: per parameter a (source, headers) or a list of those"""
        def setup(s):
            fn = [name(s, 'f%d' % i) for i in range(nform)]
            un = [name(s, 'u%d' % i) for i in range(len(filespecs))]
            ps = []
            for i, n in enumerate(un):
                if isinstance(filespecs[i], list):
                    ps.append({'name': n, 'in': 'formData', 'type': 'array', 'items': {'type': 'file'}})
                else:
                    ps.append(decl(n, 'file'))
            ps += [decl(n, 'formData') for n in fn]
            return op_of(s, app_of(s, opdoc(ps, method=method))), fn, un

        def body(s, pre):
            op, fn, un = pre
            enc = s.choice('encoding', 'utf-8', 'latin-1', None)
            args, fields, files = {}, [], []
            for i, n in enumerate(fn):
                args[n] = s.sym('v%d' % i, 'str')
                fields.append((n, args[n]))
            streams = []
            for i, n in enumerate(un):
                sp = filespecs[i]
                made = [filearg(s, '%d.%d' % (i, j), *x) for j, x in enumerate(sp if isinstance(sp, list) else [sp])]
                args[n] = s.list(*[m[0] for m in made]) if isinstance(sp, list) else made[0][0]
                files += [(n,) + m[1] for m in made]
            o = s.I_call(op, args)
            s.check(o.ok, 'accept', lambda: '%r' % (o,), o.site)
            req = s.items(o.value)[0]
            o = s.meth(req, 'prepare', **({'encoding': enc} if enc else {}))
            s.check(o.ok, 'accept', lambda: 'prepare: %r' % (o,), o.site)
            b = bounds(s, req)
            # the fields in the order of the call or of the declaration; with more than one, both are the same here
            s.same_ob(s.attr(req, 'data'), expect(s, b, fields, files, enc or 'utf-8'), 'framing', 'payload')
            closed(s)
            s.check(not s.events('Stream.close'), 'stream', 'a stream of the caller was closed')
        run.explore(what, body, setup)

    for src in ('bytes', 'str', 'disk'):
        for hs in ((), ('Content-Type',), ('Content-Transfer-Encoding',), ('Content-Type', 'Content-Transfer-Encoding')):
            case('one file, %s, headers %s' % (src, '+'.join(hs) or 'none'), 0, [(src, hs)])
        case('file and field, %s' % src, 1, [(src, ())])
        case('file and two fields, %s' % src, 2, [(src, ())])
        case('array of files, %s' % src, 0, [[(src, ())]])
    case('array of two files', 1, [[('bytes', ('Content-Type',)), ('str', ())]])
    case('array of three files', 0, [[('str', ()), ('disk', ('Content-Type',)), ('bytes', ('Content-Transfer-Encoding',))]])
    case('two files', 0, [('bytes', ()), ('disk', ('Content-Type',))])
    case('two files and two fields', 2, [('str', ('Content-Type',)), ('bytes', ())])
    case('three fields, one file', 3, [('bytes', ())])
    case('file array and file', 1, [[('bytes', ()), ('bytes', ())], ('str', ())])
    for m in ('put', 'patch', 'delete'):
        case('method ' + m, 1, [('bytes', ())], m)

    def empty():
        def setup(s):
            return op_of(s, app_of(s, opdoc([decl('u', 'file'), decl('f', 'formData')], method='post')))

        def body(s, op):
            c = s.choice('content', b'', '')
            fn = fname(s, 'fn')
            req = s.items(s.must(op, u=s.dict(('filename', fn), ('data', stream(s, c))), f=''))[0]
            o = s.meth(req, 'prepare')
            s.check(o.ok, 'accept', lambda: 'prepare: %r' % (o,), o.site)
            s.same_ob(s.attr(req, 'data'), expect(s, bounds(s, req), [('f', '')], [('u', fn, {}, c)], 'utf-8'), 'framing', 'payload')
        run.explore('empty content', body, setup)
    empty()

    def twice():
        """each request announces a boundary of its own"""
        def setup(s):
            return op_of(s, app_of(s, opdoc([decl('u', 'file')], method='post')))

        def body(s, op):
            bs = []
            for i in range(2):
                a, (fn, hs, data) = filearg(s, str(i), 'bytes', ())
                req = s.items(s.must(op, u=a))[0]
                s.must(s.attr(req, 'prepare'))
                b = bounds(s, req)
                s.same_ob(s.attr(req, 'data'), expect(s, b, [], [('u', fn, hs, data)], 'utf-8'), 'framing', 'payload')
                bs.append(b)
            s.check(not s.same(bs[0], bs[1]), 'boundary', 'two requests share a boundary')
        run.explore('two requests', body, setup)
    twice()

    def faults():
        """reading the disk file fails"""
        def setup(s):
            return op_of(s, app_of(s, opdoc([decl('u', 'file')], method='post')))

        def body(s, op):
            a, _ = filearg(s, '', 'disk', ())
            req = s.items(s.must(op, u=a))[0]
            s.I.faults = True
            o = s.meth(req, 'prepare')
            s.I.faults = False
            closed(s)
            s.check(o.ok or o.is_exc('OSError', 'IOError', 'Exception'), 'fault', lambda: '%r' % (o,), o.site)
        run.explore('failing disk file', body, setup)
    faults()

    def left():
        """without multipart handling nothing is read or encoded"""
        def setup(s):
            return op_of(s, app_of(s, opdoc([decl('u', 'file'), decl('f', 'formData')], method='post')))

        def body(s, op):
            src = s.choice('source', 'bytes', 'disk')
            a, (fn, hs, data) = filearg(s, '', src, ('Content-Type',))
            v = s.sym('v', 'str')
            req = s.items(s.must(op, u=a, f=v))[0]
            s.must(s.attr(req, 'prepare'), handle_files=False)
            s.check(not s.events('open', 'Stream.read'), 'left alone', 'files are read although the client encodes them')
            pairs = [s.items(x) for x in s.items(s.attr(req, 'data'))]
            s.check(len(pairs) == 1, 'left alone', 'form fields %d' % len(pairs))
            s.same_ob(pairs[0][0], 'f', 'left alone', 'name of a form field')
            s.same_ob(pairs[0][1], v, 'left alone', 'form field')
            u = s.item(s.attr(req, 'files'), 'u')
            s.same_ob(s.attr(u, 'filename'), fn, 'left alone', 'file name')
            s.same_ob(s.item(s.attr(u, 'header'), 'Content-Type'), hs['Content-Type'], 'left alone', 'file header')
        run.explore('multipart left to the client', body, setup)
    left()
