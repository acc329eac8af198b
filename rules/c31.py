"""Rendering.  Random numbers are chosen by the analysis: every choice of the first calls (end points, next to them and middle of
long ranges), then a fixed sequence in which every value returns, so that a loop that can end does end.  Schemas of every type,
format and combination of limits, at every place; objects with required, optional and additional properties; recursive models;
templates, exclusions and options.  Whatever is chosen, the value rendered has to satisfy its declaration, and running out of the
loop budget is a violation."""
from absint import lib
from .common import *

KI = frozenset(['int'])


class Dice(object):
    """choices of the random module"""
    free = 5        # number of calls with every choice, further ones follow a fixed sequence

    @staticmethod
    def pick(I, opts, label):
        m = I.F.misc
        n = m['dice'] = m.get('dice', 0) + 1
        if len(opts) == 1:
            return opts[0]
        if n <= m.get('free', Dice.free):
            return opts[I.split(list(range(len(opts))), label)]
        x = n * 2654435761 % 4294967296
        return opts[(x >> 12) % len(opts)]


def randint(I, a, k):
    a = [I.R(x) for x in a]
    for x in a:
        if not I.has_kind(x, ['int', 'bool']):
            if isinstance(x, float) and x == int(x):
                continue
            raise I.exc('ValueError', 'non-integer arg 1 for randrange()')
    lo, hi = I.R(a[0]), I.R(a[1])
    if I.order(lo, hi) > 0:
        raise I.exc('ValueError', 'empty range for randrange()')
    lo, hi = I.R(lo), I.R(hi)
    if isinstance(lo, (int, float)) and isinstance(hi, (int, float)):
        lo, hi = int(lo), int(hi)
        opts = list(range(lo, hi + 1)) if hi - lo < 4 else [lo, hi, (lo + hi) // 2, lo + 1, hi - 1]
        return Dice.pick(I, opts, 'random.randint')
    m = I.F.misc
    n = m['ints'] = m.get('ints', 0) + 1
    t = T('randint', lo, hi, n, kinds=KI)
    if I.order(t, lo) < 0 or I.order(hi, t) < 0:
        raise Skip()
    return I.R(t)


def randrange(I, a, k):
    a = [I.R(x) for x in a]
    if len(a) == 1:
        a = [0] + a
    if len(a) != 2:
        raise Inconclusive('randrange with a step')
    return randint(I, [a[0], I.binop('Sub', a[1], 1)], k)


def choice(I, a, k):
    v = I.U(I.R(a[0]))
    if isinstance(v, (HList, tuple)):
        items = list(v.items if isinstance(v, HList) else v)
    elif isinstance(v, str):
        items = list(v)
    else:
        raise Inconclusive('choice from %s' % show(v))
    if not items:
        raise I.exc('IndexError', 'Cannot choose from an empty sequence')
    if len(items) > 4:
        m = I.F.misc
        n = m['letter'] = m.get('letter', 0) + 1
        if n <= m.get('same', 0):
            return I.R(items[0])
        return I.R(items[(n * 2654435761 % 4294967296 >> 12) % len(items)])
    return I.R(Dice.pick(I, items, 'random.choice'))


SAMPLES = [0.0, 1 - 2.0 ** -53, 0.5, 0.25, 0.75, 2.0 ** -53, 0.99]


def rnd(I, a, k):
    return Dice.pick(I, SAMPLES, 'random.random')


def uniform(I, a, k):
    a = [I.R(x) for x in a]
    if all(isinstance(x, (int, float)) for x in a):
        return a[0] + (a[1] - a[0]) * rnd(I, [], {})
    return T('uniform', a[0], a[1], rnd(I, [], {}), kinds=frozenset(['float']))


lib.LIB.update({'random.randint': randint, 'random.randrange': randrange, 'random.choice': choice, 'random.random': rnd, 'random.uniform': uniform, 'random.seed': lambda I, a, k: None})

OPT = dict(max_name_length=2, max_prop_count=3, max_str_length=2, max_byte_length=2, max_array_length=2, max_file_length=2)


def renderer(s):
    return s.must('pyswagger.primitives:Renderer')


def options(s, r, **kw):
    o = s.must(s.attr(r, 'default'))
    for k, v in list(OPT.items()) + list(kw.items()):
        if k in OPT or v is not None:
            s.I.setitem(o, k, s.obj(v))
    return o


def num(s, v, rule, what):
    v = s.R(v)
    s.check(s.I.has_kind(v, ['int', 'float']), rule, lambda: '%s: rendered %s' % (what, show(v)))
    return v


def limits(s, v, d, what):
    """v satisfies the numeric limits of d"""
    if d.get('minimum') is not None:
        o = s.I.order(v, d['minimum'])
        s.check(o > 0 or (o == 0 and not d.get('exclusiveMinimum')), 'minimum', lambda: '%s: rendered %s, below the minimum of %s' % (what, show(v), show_d(d)))
    if d.get('maximum') is not None:
        o = s.I.order(v, d['maximum'])
        s.check(o < 0 or (o == 0 and not d.get('exclusiveMaximum')), 'maximum', lambda: '%s: rendered %s, above the maximum of %s' % (what, show(v), show_d(d)))
    if d.get('multipleOf') is not None and isinstance(v, (int, float)):
        s.check(v % d['multipleOf'] == 0, 'multipleOf', lambda: '%s: rendered %s, not a multiple as declared by %s' % (what, show(v), show_d(d)))


def show_d(d):
    return '{%s}' % ', '.join('%s: %s' % (k, show(v)) for k, v in sorted(d.items(), key=lambda x: x[0]))


def conforms(s, v, d, what, defs=None):
    """the value satisfies the declaration"""
    v = s.I.U(s.R(v))
    if '$ref' in d:
        d = defs[d['$ref'].rsplit('/', 1)[1]]
    t, f = d.get('type'), d.get('format')
    if d.get('enum') and t not in ('array', 'object') and f not in ('date', 'date-time', 'uuid'):
        s.check(any(s.same(v, x) for x in d['enum']), 'enum', lambda: '%s: rendered %s, not a member of %s' % (what, show(v), show_d(d)))
    if t == 'integer':
        s.check(s.I.has_kind(v, ['int']), 'type', lambda: '%s: rendered %s for %s' % (what, show(v), show_d(d)))
        limits(s, s.R(v), d, what)
    elif t == 'number':
        s.check(s.I.has_kind(v, ['float'] if f not in ('int32', 'int64') and not d.get('enum') else ['int', 'float']), 'type', lambda: '%s: rendered %s for %s' % (what, show(v), show_d(d)))
        s.check(not isinstance(v, float) or v - v == 0, 'type', lambda: '%s: rendered %s for %s' % (what, show(v), show_d(d)))
        limits(s, s.R(v), d, what)
    elif t == 'boolean':
        s.check(s.I.has_kind(v, ['bool']), 'type', lambda: '%s: rendered %s for %s' % (what, show(v), show_d(d)))
    elif t == 'string' and f in (None, '', 'password'):
        s.check(s.I.has_kind(v, ['str']), 'type', lambda: '%s: rendered %s for %s' % (what, show(v), show_d(d)))
        n = s.len(v)
        if d.get('minLength') is not None and not d.get('enum'):
            s.check(s.I.order(n, d['minLength']) >= 0, 'minLength', lambda: '%s: rendered %s, shorter than %s' % (what, show(v), show_d(d)))
        if d.get('maxLength') is not None and not d.get('enum'):
            s.check(s.I.order(n, d['maxLength']) <= 0, 'maxLength', lambda: '%s: rendered %s, longer than %s' % (what, show(v), show_d(d)))
    elif t == 'array':
        s.check(isinstance(v, HList), 'type', lambda: '%s: rendered %s for %s' % (what, show(v), show_d(d)))
        n = len(v.items)
        s.check(n >= (d.get('minItems') or 0) and (d.get('maxItems') is None or n <= d['maxItems']), 'items', lambda: '%s: rendered %d elements for %s' % (what, n, show_d(d)))
        for i, x in enumerate(v.items):
            conforms(s, x, d['items'], what + ' element', defs)
            if d.get('uniqueItems'):
                s.check(not any(s.same(x, y) for y in v.items[:i]), 'unique', lambda: '%s: rendered %s twice for %s' % (what, show(x), show_d(d)))
    elif t == 'object':
        s.check(isinstance(v, HDict), 'type', lambda: '%s: rendered %s for %s' % (what, show(v), show_d(d)))
        ps, req = d.get('properties') or {}, d.get('required') or []
        for n in req:
            s.check(s.I.contains(v, n), 'required', lambda: '%s: rendered %s without the required %s' % (what, show(v), show(n)))
        extra = 0
        for n, x in [(s.R(k), x) for k, x in v.ents.values()]:
            k = [p for p in ps if s.same(p, n)]
            if k:
                conforms(s, x, ps[k[0]], what + ' property', defs)
            else:
                extra += 1
                s.check(isinstance(d.get('additionalProperties'), dict), 'undeclared', lambda: '%s: rendered the undeclared property %s' % (what, show(n)))
                s.check(s.I.has_kind(n, ['str']), 'type', lambda: '%s: property name %s' % (what, show(n)))
                conforms(s, x, d['additionalProperties'], what + ' additional property', defs)


def setup(d, strict=True, **defs):
    def f(s):
        ds = dict(defs, M=d)
        app = app_of(s, doc(definitions=ds), prepare=False)
        s.must(s.attr(app, 'prepare'), strict)
        return app, schema_of(s, app, 'M')
    return f


def render(s, x, **kw):
    r = renderer(s)
    o = s.meth(r, 'render', x, opt=options(s, r, **kw))
    s.check(o.ok, 'render', lambda: 'rendering: %r' % (o,), o.site)
    return o.value


# ------------------------------------------------------------------ numbers
def ints():
    out = []
    for f in (None, 'int32', 'int64'):
        for lo, hi in ((None, None), (-3, None), (None, 4), (2, 5), (-6, -3), (7, 7), (1 << 40, None), (None, -(1 << 40)), (1 << 30, None), (None, -(1 << 30)), ((1 << 62), None), (0, 0), (0, None), (None, 0)):
            for m in (None, 3):
                for el in (None, True):
                    for eh in (None, True):
                        if (el and lo is None) or (eh and hi is None):
                            continue
                        a = lo if not el or lo is None else lo + 1
                        b = hi if not eh or hi is None else hi - 1
                        if a is not None and b is not None and not [x for x in range(a, b + 1) if not m or x % m == 0]:
                            continue
                        d = {'type': 'integer', 'format': f, 'minimum': lo, 'maximum': hi, 'multipleOf': m, 'exclusiveMinimum': el, 'exclusiveMaximum': eh}
                        out.append({k: v for k, v in d.items() if v is not None})
    return out


def floats():
    out = []
    for f in (None, 'float', 'double'):
        for lo, hi in ((None, None), (-3, None), (None, 4), (2.5, 5), (-6.5, -3.25), (None, -2.5), (7, 7), (None, 0), (0, None), (0, 1), (None, 0.25), (None, -1e300), (1e300, None), (-1.5, 1.5)):
            for m in (None, 3, 0.5):
                for el in (None, True):
                    for eh in (None, True):
                        if (el and lo is None) or (eh and hi is None) or (m and (abs(lo or 0) > 1e9 or abs(hi or 0) > 1e9)):
                            continue
                        a, b = lo, hi
                        if a is not None and b is not None:
                            if m:
                                if not [i for i in range(-50, 50) if (i * m > a or (i * m == a and not el)) and (i * m < b or (i * m == b and not eh))]:
                                    continue
                            elif a == b and (el or eh):
                                continue
                        d = {'type': 'number', 'format': f, 'minimum': lo, 'maximum': hi, 'multipleOf': m, 'exclusiveMinimum': el, 'exclusiveMaximum': eh}
                        out.append({k: v for k, v in d.items() if v is not None})
    return out


def grouped(s, ds):
    """the schemas as definitions of one document"""
    app = app_of(s, doc(definitions={'M%d' % i: d for i, d in enumerate(ds)}))
    return [schema_of(s, app, 'M%d' % i) for i in range(len(ds))]


def numbers(run, kind, ds):
    for n in range(0, len(ds), 40):
        part = ds[n:n + 40]

        def body(s, pre, part=part):
            i = s.choice('schema', *range(len(part)))
            conforms(s, render(s, pre[i]), part[i], 'a number')
        run.explore('%s %d' % (kind, n // 40), body, setup=lambda s, part=part: grouped(s, part), max_paths=20000)


def generic_limits(run):
    """any limits"""
    for form in (None, 'int32', 'int64'):
        for eb in ((None, None), (True, None), (None, True), (True, True)):
            def setup_(s, form=form, eb=eb):
                lo, hi = s.sym('minimum', 'int'), s.sym('maximum', 'int')
                d = {'type': 'integer', 'minimum': lo, 'maximum': hi}
                if form:
                    d['format'] = form
                if eb[0]:
                    d['exclusiveMinimum'] = True
                if eb[1]:
                    d['exclusiveMaximum'] = True
                return (d, lo, hi) + setup(d)(s)

            def body(s, pre, eb=eb):
                d, lo, hi, app, x = pre
                a = s.binop('Add', lo, 1) if eb[0] else lo
                b = s.binop('Sub', hi, 1) if eb[1] else hi
                s.assume(s.I.order(a, b) <= 0)
                conforms(s, render(s, x), dict(d, minimum=lo, maximum=hi), 'an integer')
            run.explore('integers with any limits %s %s' % (form, eb), body, setup=setup_)


# ------------------------------------------------------------------ strings, arrays, formats
def strings(run):
    ds = []
    for f in (None, '', 'password'):
        for lo in (None, 0, 1, 3, 5):
            for hi in (None, 0, 1, 3, 6):
                if lo is None or hi is None or lo <= hi:
                    d = {'type': 'string', 'format': f, 'minLength': lo, 'maxLength': hi}
                    ds.append({k: v for k, v in d.items() if v is not None})

    def body(s, pre):
        i = s.choice('schema', *range(len(ds)))
        v = render(s, pre[i])
        conforms(s, v, ds[i], 'a string')
        if ds[i].get('maxLength') is None:
            s.check(s.I.order(s.len(v), max(OPT['max_str_length'], ds[i].get('minLength') or 0)) <= 0, 'option', lambda: 'rendered %s with the option max_str_length %d' % (show(v), OPT['max_str_length']))
    run.explore('strings', body, setup=lambda s: grouped(s, ds), max_paths=20000)


SIMPLE = [{'type': 'integer', 'minimum': 1, 'maximum': 3}, {'type': 'boolean'}, {'type': 'string', 'maxLength': 1}, {'type': 'number', 'minimum': 0, 'maximum': 1}]


def arrays(run):
    ds = []
    for lo in (None, 0, 1, 2, 4):
        for hi in (None, 0, 1, 3, 5):
            if lo is None or hi is None or lo <= hi:
                for it in (SIMPLE[0], {'type': 'array', 'items': SIMPLE[1], 'minItems': 1, 'maxItems': 2}):
                    for un in (None, True):
                        if un and it is SIMPLE[0] and (lo or 0) > 3:
                            continue
                        if un and it is not SIMPLE[0] and (lo or 0) > 2:
                            continue
                        d = {'type': 'array', 'items': it, 'minItems': lo, 'maxItems': hi, 'uniqueItems': un}
                        ds.append({k: v for k, v in d.items() if v is not None})
    # exactly as many distinct values as demanded
    ds.append({'type': 'array', 'items': {'type': 'boolean'}, 'minItems': 2, 'uniqueItems': True})
    ds.append({'type': 'array', 'items': {'type': 'string', 'enum': ['a', 'b', 'c']}, 'minItems': 3, 'maxItems': 3, 'uniqueItems': True})

    for n in range(0, len(ds), 12):
        part = ds[n:n + 12]

        def body(s, pre, ds=part):
            s.I.F.misc['free'] = 3
            i = s.choice('schema', *range(len(ds)))
            v = render(s, pre[i])
            conforms(s, v, ds[i], 'an array')
            if ds[i].get('maxItems') is None:
                n = len(s.items(v))
                s.check(n <= max(OPT['max_array_length'], ds[i].get('minItems') or 0), 'option', lambda: 'rendered %d elements with the option max_array_length %d' % (n, OPT['max_array_length']))
        run.explore('arrays %d' % (n // 12), body, setup=lambda s, part=part: grouped(s, part), max_paths=20000)


def formats(run):
    def enums(s):
        a, b = s.token('a'), s.token('b')
        n, m, f, g = 17, -3, 2.5, -1e30
        u = ['12345678-1234-5678-1234-567812345678']
        return [{'type': 'string', 'enum': [a, b]}, {'type': 'string', 'enum': [a, '']}, {'type': 'string', 'format': 'password', 'enum': [a]}, {'type': 'string', 'format': 'email', 'enum': [a, b]},
                {'type': 'string', 'format': 'byte', 'enum': [a, '']}, {'type': 'integer', 'enum': [n, m]}, {'type': 'integer', 'format': 'int64', 'enum': [0, n]}, {'type': 'number', 'enum': [f, g]},
                {'type': 'number', 'format': 'float', 'enum': [0.0, g]}, {'type': 'boolean', 'enum': [False]}, {'type': 'boolean', 'enum': [True]}, {'type': 'string', 'enum': ['']}, {'type': 'integer', 'enum': [0]},
                {'type': 'string', 'format': 'date', 'enum': ['2001-02-03']}, {'type': 'string', 'format': 'date-time', 'enum': ['2001-02-03T04:05:06Z']}, {'type': 'string', 'format': 'uuid', 'enum': u}]

    def pre(s):
        ds = enums(s)
        return ds, grouped(s, ds)

    def body(s, pre):
        ds, xs = pre
        i = s.choice('schema', *range(len(ds)))
        v = render(s, xs[i])
        conforms(s, v, ds[i], 'an enum')
        f = ds[i].get('format')
        if f == 'date':
            s.check(s.same(v, T('date', 2001, 2, 3)), 'enum', lambda: 'rendered %s for 2001-02-03' % show(v))
        elif f == 'date-time':
            s.check(isinstance(v, Term) and v.op == 'datetime' and v.args[:6] == (2001, 2, 3, 4, 5, 6), 'enum', lambda: 'rendered %s for 2001-02-03T04:05:06Z' % show(v))
        elif f == 'uuid':
            s.check(s.I.has_kind(v, ['uuid']), 'enum', lambda: 'rendered %s for a UUID' % show(v))
    run.explore('enums', body, setup=pre, max_paths=20000)

    FS = [('string', 'date', ['date']), ('string', 'date-time', ['datetime']), ('string', 'uuid', ['uuid']), ('string', 'byte', ['bytes', 'str']), ('string', 'email', ['str']), ('boolean', None, ['bool']), ('boolean', '', ['bool']),
          ('number', 'int32', ['int']), ('number', 'int64', ['int']), ('integer', '', ['int']), ('number', '', ['float'])]
    FD = [dict([('type', t)] + ([('format', f)] if f is not None else [])) for t, f, _ in FS]

    def body(s, pre):
        s.I.F.misc['free'] = 3
        i = s.choice('schema', *range(len(FS)))
        v = render(s, pre[i])
        s.check(s.I.has_kind(v, FS[i][2]), 'type', lambda: 'rendered %s for %s' % (show(v), show_d(FD[i])))
        if FS[i][1] == 'email':
            s.check(not isinstance(v, str) or (v.count('@') == 1 and '.' in v.split('@')[1] and v[0] != '@'), 'email', lambda: 'rendered %s for an email' % show(v))
    run.explore('formats', body, setup=lambda s: grouped(s, FD), max_paths=20000)

    def body(s, pre):
        app, op = pre
        r = renderer(s)
        a, b = s.opaque('file a'), s.opaque('file b')
        given = s.choice('files', 0, 1, 2)
        o = s.meth(r, 'render_all', op, opt=options(s, r, max_parameter=True, files=[a, b][:given]))
        s.check(o.ok, 'render', lambda: 'rendering a file: %r' % (o,), o.site)
        v = s.item(o.value, 'f')
        if given:
            s.check(any(s.same(v, x) for x in [a, b][:given]), 'files', lambda: 'rendered %s, not one of the registered files' % show(v))
        else:
            t = s.item(s.item(v, 'header'), 'Content-Type')
            s.check(s.I.has_kind(t, ['str']), 'file', lambda: 'header of a rendered file %s' % show(t))
            n = s.len(s.must(s.attr(s.item(v, 'data'), 'read')))
            s.check(s.I.order(n, OPT['max_file_length']) <= 0, 'option', lambda: 'file of %s characters with the option max_file_length %d' % (show(n), OPT['max_file_length']))

    def pre(s):
        app = app_of(s, opdoc([dict({'name': 'f', 'in': 'formData', 'type': 'file'}, **s.choice('format', {}, {'format': ''}))], method='post', consumes=['multipart/form-data']))
        return app, op_of(s, app)
    run.explore('files', body, setup=pre)

    def body(s):
        o = s.must(s.attr(renderer(s), 'default'))
        for k in OPT:
            v = s.R(s.item(o, k))
            s.check(isinstance(v, int) and v > 0, 'default', lambda: 'the default of %s is %s' % (k, show(v)))
        for k in ('minimal_property', 'minimal_parameter', 'max_property', 'max_parameter'):
            s.check(s.R(s.item(o, k)) is False, 'default', lambda: 'the default of %s is %s' % (k, show(s.item(o, k))))
        for k in ('files', 'object_template', 'parameter_template'):
            s.check(s.len(s.item(o, k)) == 0, 'default', lambda: 'the default of %s is %s' % (k, show(s.item(o, k))))
    run.explore('default options', body)


# ------------------------------------------------------------------ objects
def objects(run):
    def pre(s):
        a, b, c = name(s, 'a'), name(s, 'b'), name(s, 'c')
        ps = {a: {'type': 'integer', 'minimum': 1, 'maximum': 2}, b: {'type': 'string', 'maxLength': 1}, c: {'type': 'boolean'}}
        ds = []
        for req in ([], [a], [b, c], [a, b, c]):
            for add in (None, {'type': 'integer', 'minimum': 5, 'maximum': 6}):
                ds.append({'type': 'object', 'properties': ps, 'required': req, 'additionalProperties': add})
        for lo, hi in ((None, 2), (2, None), (1, 3), (3, 3), (5, None)):
            ds.append({'type': 'object', 'additionalProperties': {'type': 'boolean'}, 'minProperties': lo, 'maxProperties': hi})
        ds.append({'type': 'object'})
        ds.append({'type': 'object', 'properties': {'a': {'type': 'boolean'}, '': {'type': 'boolean'}}, 'additionalProperties': {'type': 'integer', 'minimum': 5, 'maximum': 6}, 'minProperties': 2})
        ds.append({'type': 'object', 'properties': {a: {'type': 'boolean'}, b: {'type': 'boolean'}}, 'required': [a], 'additionalProperties': {'type': 'boolean'}, 'maxProperties': 3})
        ds.append({'type': 'object', 'properties': {a: {'type': 'object', 'properties': {b: {'type': 'boolean'}, c: {'type': 'integer', 'minimum': 1, 'maximum': 3}}, 'required': [c]}}, 'required': [a]})
        for d in ds:
            for k in list(d):
                if d[k] is None or d[k] == []:
                    del d[k]
        return ds, grouped(s, ds), (a, b, c)

    def body(s, pre):
        ds, xs, _ = pre
        s.I.F.misc['free'] = 4
        i = s.choice('schema', *range(len(ds)))
        mode = s.choice('option', None, 'minimal_property', 'max_property')
        d = ds[i]
        v = render(s, xs[i], **({mode: True} if mode else {}))
        conforms(s, v, d, 'an object')
        have = [s.R(k) for k, _ in s.I.U(v).ents.values()]
        for p in d.get('properties') or {}:
            got = any(s.same(p, h) for h in have)
            if mode == 'max_property':
                s.check(got, 'max_property', lambda: 'rendered %s without the property %s under max_property' % (show(v), show(p)))
            elif mode == 'minimal_property':
                s.check(got == any(s.same(p, q) for q in d.get('required') or []), 'minimal_property', lambda: 'rendered %s under minimal_property for %s' % (show(v), show_d(d)))
        if d.get('additionalProperties'):
            lo, hi = d.get('minProperties'), d.get('maxProperties')
            s.check(len(have) >= (lo or 0), 'minProperties', lambda: 'rendered %d properties for %s' % (len(have), show_d(d)))
            if len(d.get('properties') or {}) <= (hi or 0):
                s.check(len(have) <= (hi or max(lo or 0, OPT['max_prop_count'])), 'maxProperties', lambda: 'rendered %d properties for %s' % (len(have), show_d(d)))
    run.explore('objects', body, setup=pre, max_paths=40000)

    def body(s, pre):
        """random names meet declared ones and each other"""
        s.I.F.misc['same'] = s.choice('equal letters', 1, 3, 6)
        s.I.F.misc['free'] = 4
        d = pre[0]
        v = render(s, pre[2], **{'max_name_length': s.choice('names', 0 + 1, 2)})
        conforms(s, v, d, 'an object')
        s.check(s.len(v) >= 3, 'minProperties', lambda: 'rendered %s' % show(v))
        s.check(s.len(v) <= 4, 'maxProperties', lambda: 'rendered %s' % show(v))
    import string as _s
    D = {'type': 'object', 'properties': {_s.ascii_letters[0]: {'type': 'boolean'}, _s.ascii_letters[1]: {'type': 'boolean'}, '': {'type': 'boolean'}}, 'required': [_s.ascii_letters[1]],
         'additionalProperties': {'type': 'integer', 'minimum': 5, 'maximum': 6}, 'minProperties': 3, 'maxProperties': 4}
    run.explore('names', body, setup=lambda s: (D,) + setup(D)(s), max_paths=20000)

    def body(s, pre):
        """templates are for every property of the name, required or not, whatever the option"""
        ds, xs, (a, b, c) = pre
        i = s.choice('schema', 0, 2, 4, 6, len(ds) - 1)
        s.I.F.misc['free'] = 3
        mode = s.choice('option', None, 'minimal_property', 'max_property')
        x, y = s.opaque('x'), s.choice('falsy', None, 0, s.opaque('y'))
        tmpl = {b: x, c: y} if s.choice('templates', 0, 1) else {a: y, s.token('other'): x}
        r = renderer(s)
        o = options(s, r, **({mode: True} if mode else {}))
        s.I.setitem(o, 'object_template', s.dict(*tmpl.items()))
        v = s.meth(r, 'render', xs[i], opt=o)
        s.check(v.ok, 'render', lambda: 'rendering with templates: %r' % (v,), v.site)
        want = ds[i]
        v = v.value
        if i == len(ds) - 1 and a not in tmpl:
            v, want = s.item(v, a), want['properties'][a]
        have = [s.R(k) for k, _ in s.I.U(v).ents.values()]
        for k, t in tmpl.items():
            if k in want['properties']:
                s.check(any(s.same(k, h) for h in have) and s.same(s.item(v, k), t), 'template', lambda: 'rendered %s, specified by the template %s: %s' % (show(v), show(k), show(t)))
            else:
                s.check(not any(s.same(k, h) for h in have) , 'template', lambda: 'rendered %s with the undeclared property of a template' % show(v))
    run.explore('property templates', body, setup=pre, max_paths=20000)


# ------------------------------------------------------------------ recursion
def recursion(run):
    run.ends = True
    R = lambda n: {'$ref': '#/definitions/' + n}
    i = {'type': 'integer', 'minimum': 1, 'maximum': 2}
    shapes = {
        'optional': {'T': {'type': 'object', 'required': ['v'], 'properties': {'v': i, 'n': R('T')}}},
        'list': {'T': {'type': 'object', 'required': ['v', 'c'], 'properties': {'v': i, 'c': {'type': 'array', 'items': R('T')}}}},
        'list of itself': {'T': {'type': 'array', 'items': R('T')}},
        'additional': {'T': {'type': 'object', 'properties': {'v': i}, 'additionalProperties': R('T')}},
        'mutual': {'T': {'type': 'object', 'required': ['u'], 'properties': {'v': i, 'u': R('U')}}, 'U': {'type': 'object', 'properties': {'w': i, 't': R('T'), 'l': {'type': 'array', 'items': R('T')}}}},
        'through a definition': {'T': {'type': 'object', 'properties': {'v': i, 'n': R('A')}}, 'A': R('T')},
        'in a list of lists': {'T': {'type': 'object', 'properties': {'c': {'type': 'array', 'items': {'type': 'array', 'items': R('T'), 'minItems': 1}}}}},
    }
    for what, defs in shapes.items():
        def pre(s, defs=defs):
            app = app_of(s, doc(definitions=defs), prepare=False)
            s.must(s.attr(app, 'prepare'), False)
            return app, schema_of(s, app, 'T')

        def body(s, pre, defs=defs):
            s.I.F.misc['free'] = 3
            mode = s.choice('option', None, 'minimal_property', 'max_property')
            v = render(s, pre[1], **({mode: True} if mode else {}))
            conforms(s, v, defs['T'], 'a recursive model', defs)
        run.explore('recursive models: ' + what, body, setup=pre)
    run.ends = False


# ------------------------------------------------------------------ parameters
def parameters(run):
    def pre(s):
        d = [{'name': 'q', 'in': 'query', 'type': 'integer', 'minimum': 1, 'maximum': 2},
             {'name': 'h', 'in': 'header', 'type': 'string', 'maxLength': 1, 'required': True},
             {'name': 'p', 'in': 'path', 'type': 'boolean', 'required': True},
             {'name': 'l', 'in': 'query', 'type': 'array', 'items': {'type': 'integer', 'minimum': 1, 'maximum': 2}, 'minItems': 1, 'maxItems': 2},
             {'name': 'b', 'in': 'body', 'schema': {'type': 'object', 'properties': {'x': {'type': 'integer', 'minimum': 1, 'maximum': 2}}, 'required': ['x']}},
             {'$ref': '#/parameters/S'}]
        shared = {'name': 's', 'in': 'query', 'type': 'integer', 'minimum': 5, 'maximum': 6, 'required': True}
        app = app_of(s, opdoc(d, method='post', path='/a/{p}', root={'parameters': {'S': shared}}))
        return d[:-1] + [shared], app, op_of(s, app)

    for mode in (None, 'minimal_parameter', 'max_parameter'):
        for exclude in ((), ('q',), ('h', 's'), ('b', 'nothing')):
            def body(s, pre, mode=mode, exclude=exclude):
                ds, app, op = pre
                s.I.F.misc['free'] = 4
                tmpl = s.choice('template', (), ('q', 'h'), ('s', 'nothing'), ('l', 'b'))
                x = s.choice('value', s.opaque('x'), None, 0)
                r = renderer(s)
                o = options(s, r, **({mode: True} if mode else {}))
                s.I.setitem(o, 'parameter_template', s.dict(*[(t, x) for t in tmpl]))
                v = s.meth(r, 'render_all', op, s.list(*exclude), o) if s.choice('keyword', 0, 1) else s.meth(r, 'render_all', op, exclude=s.list(*exclude), opt=o)
                s.check(v.ok, 'render', lambda: 'rendering parameters: %r' % (v,), v.site)
                v = v.value
                have = {s.R(k): w for k, w in s.I.U(v).ents.values()}
                names = [d['name'] for d in ds]
                s.check(all(k in names for k in have), 'undeclared', lambda: 'rendered %s, not all are parameters' % show(v))
                for d in ds:
                    n = d['name']
                    got = n in have
                    if n in exclude:
                        s.check(not got, 'exclude', lambda: 'the excluded parameter %s was rendered' % n)
                        continue
                    if n in tmpl:
                        s.check(got and s.same(have[n], x), 'template', lambda: 'parameter %s is %s, specified by the template %s' % (n, show(have.get(n, 'not rendered')), show(x)))
                        continue
                    if d.get('required') or mode == 'max_parameter':
                        s.check(got, 'required', lambda: 'parameter %s was not rendered' % n)
                    elif mode == 'minimal_parameter':
                        s.check(not got, 'minimal_parameter', lambda: 'the optional parameter %s was rendered' % n)
                    if got:
                        conforms(s, have[n], d.get('schema', d), 'parameter ' + n)
            run.explore('parameters %s %s' % (mode, exclude), body, setup=pre, max_paths=60000)

    def body(s, pre):
        """single parameters; every operation accepts what was rendered for it"""
        ds, app, op = pre
        r = renderer(s)
        s.I.F.misc['free'] = 3
        ps = s.items(s.attr(op, 'parameters'))
        i = s.choice('parameter', *range(len(ds) - 1))
        v = s.meth(r, 'render', ps[i], opt=options(s, r)) if s.choice('keyword', 0, 1) else s.meth(r, 'render', ps[i], options(s, r))
        s.check(v.ok, 'render', lambda: 'rendering a parameter: %r' % (v,), v.site)
        conforms(s, v.value, ds[i].get('schema', ds[i]), 'parameter ' + ds[i]['name'])
        o = s.meth(r, 'render_all', op, opt=options(s, r, max_parameter=True))
        o = s.I_call(op, {s.R(k): w for k, w in s.I.U(o.value).ents.values()})
        s.check(o.ok, 'accepted', lambda: 'calling an operation with rendered parameters: %r' % (o,), o.site)
    run.explore('single parameters and calls', body, setup=pre, max_paths=60000)


def usage(run):
    def pre(s):
        app = app_of(s, opdoc([{'name': 'q', 'in': 'query', 'type': 'boolean', 'required': True}], root={'definitions': {'M': {'type': 'boolean'}}}))
        return app, op_of(s, app), schema_of(s, app, 'M'), s.items(s.attr(op_of(s, app), 'parameters'))[0]

    def body(s, pre):
        app, op, m, p = pre
        r = renderer(s)
        bad = s.choice('argument', s.opaque('x'), None, 'text', s.dict(), op, s.attr(app, 'root'))
        o = s.meth(r, 'render', bad)
        s.check(o.is_exc('ValueError'), 'argument', lambda: 'rendering %s: %r, specified ValueError' % (show(bad), o), o.site)
        bad = m if s.same(bad, op) else bad
        o = s.meth(r, 'render_all', bad)
        s.check(o.is_exc('ValueError'), 'argument', lambda: 'rendering parameters of %s: %r, specified ValueError' % (show(bad), o), o.site)
        for w in (s.list(), 'x', 1, s.token('t')):
            for f, x in (('render', m), ('render', p), ('render_all', op)):
                o = s.meth(r, f, x, opt=w)
                s.check(o.is_exc('ValueError'), 'options', lambda: '%s with the options %s: %r, specified ValueError' % (f, show(w), o), o.site)
    run.explore('wrong arguments', body, setup=pre)

    def body(s, pre):
        app, op, m, p = pre
        r = renderer(s)
        a = s.must(s.attr(r, 'default'))
        for k in ('object_template', 'parameter_template'):
            s.I.setitem(s.item(a, k), 'q', s.opaque('mine'))
        s.I.call(s.attr(s.item(a, 'files'), 'append'), [s.opaque('file')], {})
        s.I.setitem(a, 'max_str_length', 1)
        for o in (s.meth(r, 'render_all', op), s.meth(renderer(s), 'render_all', op)):
            s.check(o.ok and s.I.has_kind(s.item(o.value, 'q'), ['bool']), 'defaults', lambda: 'the default options were changed through a copy: %r' % (o,), o.site)
        for o in (s.meth(r, 'render', m), s.meth(r, 'render', p)):
            s.check(o.ok and s.I.has_kind(o.value, ['bool']), 'defaults', lambda: 'rendering with default options: %r' % (o,), o.site)
        b = s.must(s.attr(r, 'default'))
        s.check(not s.items(s.item(b, 'files')), 'defaults', 'the default files were changed through a copy')
    run.explore('default options', body, setup=pre)


def check(run):
    numbers(run, 'integers', ints())
    numbers(run, 'numbers', floats())
    generic_limits(run)
    strings(run)
    arrays(run)
    formats(run)
    objects(run)
    recursion(run)
    parameters(run)
    usage(run)
