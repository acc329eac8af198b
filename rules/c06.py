"""Types and formats.  For every type/format pair of the specification and every kind of input value an arbitrary value is
produced through the public factory, sent as a parameter and encoded in a JSON body; the produced value, its text and its
JSON form are compared with the documented conversion, other kinds have to be rejected.  Unknown formats, unknown types and
user-registered handlers are covered for every place that looks the handler up."""
from .common import *

KINDS = ('str', 'bytes', 'int', 'float', 'list', 'dict', 'date', 'datetime', 'uuid')


def text_of(s, ob):
    return s.builtin('str', ob)


def json_of(s, v):
    """what the JSON codec emits for a produced value"""
    codec = s.must('pyswagger.primitives:MimeCodec')
    t = s.I.R(s.must(s.attr(codec, 'marshal'), 'application/json', v))
    if isinstance(t, Term) and t.op == 'json.dumps':
        return t.args[0]
    return t


def want_time(s, fmt, v, k):
    """specified inner value of a date / date-time made of v"""
    if k in ('int', 'float'):
        return s.must(s.attr(s.I.C_date, 'fromtimestamp') if fmt == 'date' else s.attr(s.I.C_datetime, 'utcfromtimestamp'), v)
    if fmt == 'date' and k == 'datetime':
        return T('dt.date', s.R(v), kinds=frozenset(['date']))
    return v


def check(run):
    def setup_of(s, d):
        app = app_of(s, doc(definitions={'M': d}))
        return schema_of(s, app, 'M'), s.attr(app, 'prim_factory')

    def prod(fmt, t='string'):
        def setup(s):
            app = app_of(s, doc(definitions={'M': {'type': t, 'format': fmt}}))
            return schema_of(s, app, 'M'), s.attr(app, 'prim_factory')
        return setup

    # ---- byte and binary
    def byte(fmt):
        def body(s, pre):
            sch, prim = pre
            k = s.choice('kind', *KINDS)
            v = s.sym('v', k)
            o = s.meth(prim, 'produce', sch, v)
            if k not in ('str', 'bytes'):
                s.check(o.is_exc('ValueError'), 'kind', lambda: '%s from %s has to raise ValueError, %r' % (fmt, k, o), o.site)
                return
            s.check(o.ok, 'accept', lambda: '%s from %s, %r' % (fmt, k, o), o.site)
            raw = v if k == 'bytes' else s.must(s.attr(v, 'encode'), 'utf-8')
            if k == 'str':
                s.same_ob(text_of(s, o.value), v, 'text', 'text of %s' % fmt)
            enc = s.I.call_ext('base64.urlsafe_b64encode', [raw], {})
            s.same_ob(json_of(s, o.value), s.must(s.attr(enc, 'decode'), 'utf-8'), 'json', 'JSON form of %s' % fmt)
        run.explore('string/%s' % fmt, body, prod(fmt))
    byte('byte')
    byte('binary')

    # ---- date and date-time
    def times(fmt):
        ok = ('int', 'float', 'datetime') + (('date',) if fmt == 'date' else ())

        def body(s, pre):
            sch, prim = pre
            k = s.choice('kind', *[x for x in KINDS if x != 'str'])
            v = s.sym('v', k)
            o = s.meth(prim, 'produce', sch, v)
            if k not in ok:
                s.check(o.is_exc('ValueError'), 'kind', lambda: '%s from %s has to raise ValueError, %r' % (fmt, k, o), o.site)
                return
            s.check(o.ok, 'accept', lambda: '%s from %s, %r' % (fmt, k, o), o.site)
            iso = s.must(s.attr(want_time(s, fmt, v, k), 'isoformat'))
            s.same_ob(json_of(s, o.value), iso, 'json', 'JSON form of %s from %s' % (fmt, k))
            s.same_ob(text_of(s, o.value), iso, 'text', 'text of %s from %s' % (fmt, k))
        run.explore('string/%s' % fmt, body, prod(fmt))

        def text(s, pre):
            sch, prim = pre
            t, want = s.choice('text', ('2015-03-04', (2015, 3, 4, 0, 0, 0, 0)), ('2015-03-04T05:06:07', (2015, 3, 4, 5, 6, 7, 0)),
                               ('1999-12-31T23:59:58.250', (1999, 12, 31, 23, 59, 58, 250000)))
            o = s.meth(prim, 'produce', sch, t)
            if o.is_exc('ValueError') and any(e for e in [o.exc] if 'datetime()' in show(o.exc)):
                return
            s.check(o.ok, 'accept', lambda: '%s from %r, %r' % (fmt, t, o), o.site)
            n = 3 if fmt == 'date' else 7
            d = T('date' if fmt == 'date' else 'datetime', *(want[:n] + (() if fmt == 'date' else (None,))))
            s.same_ob(json_of(s, o.value), s.must(s.attr(d, 'isoformat')), 'json', '%s from %r' % (fmt, t))
        run.explore('string/%s from text' % fmt, text, prod(fmt))

        def bad(s, pre):
            sch, prim = pre
            t = s.choice('text', 'x', '', '2015', '03/04/2015', 'yesterday')
            o = s.meth(prim, 'produce', sch, t)
            s.check(o.is_exc('ValueError'), 'text', lambda: '%r is not a %s and has to raise ValueError, %r' % (t, fmt, o), o.site)
        run.explore('string/%s from other text' % fmt, bad, prod(fmt))
    times('date')
    times('date-time')

    # ---- uuid
    def uuid_(s, pre):
        sch, prim = pre
        k = s.choice('kind', *KINDS)
        v = s.sym('v', k)
        o = s.meth(prim, 'produce', sch, v)
        if k not in ('str', 'bytes', 'uuid'):
            s.check(o.is_exc('ValueError'), 'kind', lambda: 'uuid from %s has to raise ValueError, %r' % (k, o), o.site)
            return
        if not o.ok and k in ('str', 'bytes'):
            # the uuid library rejected the content
            s.check(any(c[0].startswith('uuid.UUID') and c[1] for c in s.I.chooser.log) or 'uuid' in show(o.exc).lower() or 'bytes is not' in show(o.exc),
                    'accept', lambda: 'uuid from %s, %r' % (k, o), o.site)
            return
        s.check(o.ok, 'accept', lambda: 'uuid from %s, %r' % (k, o), o.site)
        u = v if k == 'uuid' else T('uuid', 'str' if k == 'str' else 'bytes', s.R(v), kinds=frozenset(['uuid']))
        s.same_ob(text_of(s, o.value), s.I.mk_str(u), 'text', 'text of uuid from %s' % k)
        s.same_ob(json_of(s, o.value), s.I.mk_str(u), 'json', 'JSON form of uuid from %s' % k)
    run.explore('string/uuid', uuid_, prod('uuid'))

    # ---- boolean
    def boolean(fmt):
        def body(s, pre):
            sch, prim = pre
            k = s.choice('kind', 'bool', 'int', 'str')
            v = s.sym('v', k)
            t = s.truth(v)
            o = s.meth(prim, 'produce', sch, v)
            s.check(o.ok, 'accept', lambda: 'boolean from %s, %r' % (k, o), o.site)
            s.check(s.I.has_kind(o.value, ['bool']) and s.truth(o.value) == t, 'value', lambda: 'boolean of %s is %s' % (show(v), show(o.value)))
        run.explore('boolean/%s' % fmt, body, prod(fmt, 'boolean'))
    for f in (None, '', 'other'):
        boolean(f)

    # ---- arrays and objects of any format
    def containers(t, fmt):
        def body(s, pre):
            sch, prim = pre
            x = s.token('x')
            o = s.meth(prim, 'produce', sch, s.list(x) if t == 'array' else s.dict(('k', x)))
            s.check(o.ok, 'accept', lambda: '%s/%s, %r' % (t, fmt, o), o.site)
            s.same_ob(s.item(o.value, 0 if t == 'array' else 'k'), x, 'value', '%s/%s' % (t, fmt))
        more = {'items': {'type': 'string'}} if t == 'array' else {'properties': {'k': {'type': 'string'}}}
        run.explore('%s/%s' % (t, fmt), body, lambda s: setup_of(s, dict(more, type=t, **({'format': fmt} if fmt is not None else {}))))
    for t in ('array', 'object'):
        for f in (None, '', 'other'):
            containers(t, f)

    # ---- numbers: the format picks integer or float
    def number(t, fmt, conv):
        def body(s, pre):
            sch, prim = pre
            v = s.sym('v', s.choice('kind', 'int', 'float'))
            o = s.meth(prim, 'produce', sch, v)
            s.check(o.ok, 'accept', lambda: '%s/%s, %r' % (t, fmt, o), o.site)
            s.same_ob(o.value, s.builtin(conv, v), 'value', '%s/%s' % (t, fmt))
        run.explore('%s/%s' % (t, fmt), body, prod(fmt, t))
    for t, fmt, conv in (('integer', None, 'int'), ('integer', 'int32', 'int'), ('integer', 'int64', 'int'), ('integer', 'unknown', 'int'),
                         ('number', None, 'float'), ('number', 'float', 'float'), ('number', 'double', 'float'), ('number', 'unknown', 'float'),
                         ('number', 'int32', 'int'), ('number', 'int64', 'int')):
        number(t, fmt, conv)

    # ---- text formats keep the text
    def textual(fmt):
        def body(s, pre):
            sch, prim = pre
            v = s.sym('v', s.choice('kind', 'str', 'int'))
            o = s.meth(prim, 'produce', sch, v)
            s.check(o.ok, 'accept', lambda: 'string/%s, %r' % (fmt, o), o.site)
            s.same_ob(o.value, s.I.mk_str(v), 'value', 'string/%s' % fmt)
        run.explore('string/%s' % fmt, body, prod(fmt))
    for f in (None, '', 'password', 'hostname', 'unknown'):
        textual(f)

    # ---- file
    def file_():
        def setup(s):
            app = app_of(s, opdoc([{'name': 'f', 'in': 'formData', 'type': 'file'}], method='post', consumes=['multipart/form-data']))
            return op_of(s, app)

        def body(s, op):
            data, fname, h = s.opaque('stream'), s.token('filename'), s.dict(('Content-Type', s.token('ct')))
            have = s.choice('given', 'filename', 'data', 'both', 'neither', 'empty name')
            val = s.dict()
            if have in ('filename', 'both'):
                s.I.setitem(val, 'filename', fname)
            if have == 'empty name':
                s.I.setitem(val, 'filename', '')
            if have in ('data', 'both'):
                s.I.setitem(val, 'data', data)
            withh = s.choice('header', True, False)
            if withh:
                s.I.setitem(val, 'header', h)
            o = s.call(op, f=val)
            if have in ('neither', 'empty name'):
                s.check(o.is_exc('ValidationError'), 'file', lambda: 'a file with neither name nor data has to raise ValidationError, %r' % (o,), o.site)
                return
            s.check(o.ok, 'accept', lambda: 'file with %s, %r' % (have, o), o.site)
            files = s.items(s.item(s.attr(s.items(o.value)[0], '_p'), 'file'))
            s.check(len(files) == 1, 'file', lambda: '%d files in the request' % len(files))
            n, f = s.items(files[0]) if not isinstance(s.I.U(files[0]), str) else (files[0], s.item(s.item(s.attr(s.items(o.value)[0], '_p'), 'file'), files[0]))
            s.same_ob(n, 'f', 'file', 'name of the part')
            s.same_ob(s.attr(f, 'filename'), fname if have in ('filename', 'both') else '', 'file', 'file name')
            s.same_ob(s.attr(f, 'data'), data if have in ('data', 'both') else None, 'file', 'stream')
            if withh:
                s.check(s.same(s.item(s.attr(f, 'header'), 'Content-Type'), s.item(h, 'Content-Type')), 'file', 'header of the file')
            else:
                s.check(not s.items(s.attr(f, 'header')), 'file', 'a file without header got some')
        run.explore('file', body, setup)
    file_()

    # ---- unknown types, registered handlers, is_primitive
    def unknown():
        def setup(s):
            t = s.token('type')
            app = app_of(s, doc(definitions={'M': {'type': t}, 'O': {'type': 'object', 'properties': {'p': {'type': t}}}, 'A': {'type': 'array', 'items': {'type': t}}}))
            return app

        def body(s, app):
            prim = s.attr(app, 'prim_factory')
            v = s.sym('v', 'int')
            w = s.choice('where', 'M', 'O', 'A')
            o = s.meth(prim, 'produce', schema_of(s, app, w), {'M': lambda: v, 'O': lambda: s.dict(('p', v)), 'A': lambda: s.list(v)}[w]())
            s.check(o.is_exc('ValueError'), 'unknown type', lambda: 'unknown type has to raise ValueError, %r' % (o,), o.site)
        run.explore('unknown type', body, setup)
    unknown()

    def override(ty, fm):
        """a handler for one type and format, built in or not"""
        def setup(s):
            unknown = s.token('unknown format')
            d = {'type': ty} if fm is None else {'type': ty, 'format': fm}
            defs = {'M': d, 'U': {'type': ty, 'format': unknown}}
            return app_of(s, doc(definitions=defs))

        def body(s, app):
            prim = s.attr(app, 'prim_factory')
            ret = s.opaque('produced')
            s.must(s.attr(prim, 'register'), ty, fm, s.fn('creator', lambda I, a, k: ret))
            v = s.token('v')
            o = s.meth(prim, 'produce', schema_of(s, app, 'M'), v)
            s.check(o.ok and s.same(o.value, ret), 'registered', lambda: '%s/%s: %r instead of the value of the registered handler' % (ty, fm, o), o.site)
            if fm is None:
                o = s.meth(prim, 'produce', schema_of(s, app, 'U'), v)
                s.check(o.ok and s.same(o.value, ret), 'fallback', lambda: '%s with an unknown format: %r instead of the value of the handler of the type' % (ty, o), o.site)
        run.explore('override %s/%s' % (ty, fm), body, setup)
    for ty, fms in (('string', (None, 'email', 'uuid', 'password', 'byte', 'binary', 'date', 'date-time')), ('integer', (None, 'int32', 'int64')),
                    ('number', (None, 'float', 'double', 'int32')), ('boolean', (None,)), ('file', (None,)), ('array', (None,)), ('object', (None,))):
        for fm in fms:
            override(ty, fm)

    def register():
        def setup(s):
            t, f = s.token('type'), s.token('format')
            mk = lambda n: T(n, kinds=OBJ)
            prim = s.must('pyswagger.primitives:Primitive')
            return prim, t, f

        def body(s, pre):
            prim, t, f = pre
            which = s.choice('registered', 'new type', 'new format', 'existing format', 'default format')
            ty, fm = {'new type': (t, f), 'new format': ('string', f), 'existing format': ('string', 'date'), 'default format': ('integer', None)}[which]
            ret, seen = s.opaque('produced'), []

            def creator(I, a, k):
                I.event('creator', a, k)
                return ret

            def second(I, a, k):
                I.event('second', a, k)
                return a[2]
            sec = s.choice('second pass', True, False)
            s.must(s.attr(prim, 'register'), ty, fm, s.fn('creator', creator), *([s.fn('second', second)] if sec else []))
            d = {'type': ty}
            if fm is not None:
                d['format'] = fm
            other = {'type': 'string', 'format': 'password'}
            app = app_of(s, opdoc([{'name': 'q', 'in': 'query', **d}], root={'definitions': {'M': d, 'A': {'type': 'array', 'items': d}, 'X': other,
                         'P': {'type': 'object', 'properties': {'p': d}}}}), prim=prim)
            v = s.token('v')
            o = s.meth(prim, 'produce', schema_of(s, app, 'M'), v)
            s.check(o.ok, 'registered', lambda: 'registered handler, %r' % (o,), o.site)
            s.same_ob(o.value, ret, 'registered', 'value of a registered type')
            ev = s.events('creator')
            s.check(len(ev) == 1 and s.same(ev[0].args[1], v), 'registered', 'the registered creator has to be called once with the value')
            ev = s.events('second')
            s.check(len(ev) == (1 if sec else 0), 'registered', lambda: 'second pass called %d times' % len(ev))
            if sec:
                s.check(s.same(ev[0].args[1], ret) and s.same(ev[0].args[2], v), 'registered', 'arguments of the second pass')
            o = s.meth(prim, 'produce', schema_of(s, app, 'A'), s.list(v))
            s.check(o.ok and s.same(s.item(o.value, 0), ret), 'registered', 'the registered handler is not used for array elements')
            o = s.meth(prim, 'produce', schema_of(s, app, 'P'), s.dict(('p', v)))
            s.check(o.ok and s.same(s.item(o.value, 'p'), ret), 'registered', 'the registered handler is not used for properties')
            s.check(s.truth(s.must(s.attr(prim, 'is_primitive'), ty)), 'registered', 'a registered type is a primitive')
            o = s.meth(prim, 'produce', schema_of(s, app, 'X'), v)
            s.check(o.ok and s.same(o.value, v), 'registered', 'registering one format changed another')
            # a second factory does not know it
            p2 = s.must('pyswagger.primitives:Primitive')
            if which == 'new type':
                s.check(not s.truth(s.must(s.attr(p2, 'is_primitive'), ty)), 'registered', 'registration leaked into another factory')
            # re-registration replaces
            ret2 = s.opaque('second produced')
            s.must(s.attr(prim, 'register'), ty, fm, s.fn('creator2', lambda I, a, k: ret2))
            o = s.meth(prim, 'produce', schema_of(s, app, 'M'), v)
            s.check(o.ok and s.same(o.value, ret2), 'registered', 'a later registration has to replace the former')
        run.explore('registered handlers', body, setup)
    register()

    def isprim(s):
        prim = s.must('pyswagger.primitives:Primitive')
        for t in ('integer', 'number', 'string', 'boolean', 'file', 'array', 'object'):
            s.check(s.truth(s.must(s.attr(prim, 'is_primitive'), t)), 'is_primitive', '%s is a primitive' % t)
        s.check(not s.truth(s.must(s.attr(prim, 'is_primitive'), s.token('t'))), 'is_primitive', 'another type is not a primitive')
    run.explore('is_primitive', isprim)

    # ---- encoding in requests
    def sent(fmt, where):
        def setup(s):
            p = {'name': 'p', 'in': where, 'type': 'string', 'format': fmt}
            if where == 'body':
                p = {'name': 'p', 'in': 'body', 'schema': {'type': 'object', 'properties': {'x': {'type': 'string', 'format': fmt},
                     'l': {'type': 'array', 'items': {'type': 'string', 'format': fmt}}}}}
            app = app_of(s, opdoc([p], method='post', path='/a/{p}' if where == 'path' else '/a'))
            return op_of(s, app)

        def body(s, op):
            k = {'byte': 'str', 'binary': 'str', 'uuid': 'uuid', 'date': 'date', 'date-time': 'datetime'}[fmt]
            v = s.sym('v', k)
            if fmt in ('byte', 'binary'):
                tx = v
                enc = s.I.call_ext('base64.urlsafe_b64encode', [s.must(s.attr(v, 'encode'), 'utf-8')], {})
                js = s.must(s.attr(enc, 'decode'), 'utf-8')
            elif fmt == 'uuid':
                tx = js = s.I.mk_str(v)
            else:
                tx = js = s.must(s.attr(v, 'isoformat'))
            o = s.call(op, p=s.dict(('x', v), ('l', s.list(v))) if where == 'body' else v)
            s.check(o.ok, 'accept', lambda: '%s in %s, %r' % (fmt, where, o), o.site)
            req = s.items(o.value)[0]
            if where == 'body':
                s.must(s.attr(req, 'prepare'))
                t = s.R(s.attr(req, 'data'))
                s.check(isinstance(t, Term) and t.op == 'json.dumps', 'body', lambda: 'payload %s' % show(t))
                d = dict(t.args[0][1:])
                s.same_ob(d['x'], js, 'body', 'JSON of the property')
                s.same_ob(d['l'][1], js, 'body', 'JSON of the element')
                return
            p = s.item(s.attr(req, '_p'), where)
            w = s.item(p, 'p') if where in ('header', 'path') else s.items(s.items(p)[0])[1]
            s.same_ob(w, tx, 'wire', '%s in %s' % (fmt, where))
        run.explore('%s sent in %s' % (fmt, where), body, setup)
    for fmt in ('byte', 'binary', 'uuid', 'date', 'date-time'):
        for where in ('query', 'header', 'path', 'formData', 'body'):
            sent(fmt, where)
