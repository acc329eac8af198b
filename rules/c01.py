"""Numeric constraints.  For every numeric type/format entry and every document object that can
carry one (schema, parameter, array item, response header), an arbitrary number and arbitrary bounds
are pushed through the public entry points; in every partition the call has to raise ValidationError
exactly when a declared minimum/maximum (inclusive or exclusive) or multipleOf is not met, and return
the converted number otherwise."""
from .common import *

CONV = {('integer', None): 'int', ('integer', 'int32'): 'int', ('integer', 'int64'): 'int',
        ('number', 'float'): 'float', ('number', 'double'): 'float', ('number', None): 'float',
        ('number', 'int32'): 'int', ('number', 'int64'): 'int'}


def con(s, which):
    d = {}
    for k in which:
        if k.startswith('exclusive'):
            d[k] = s.sym(k, 'bool')
        else:
            d[k] = s.sym(k, 'int', 'float')
    return d


def violated(s, d, r):
    """the specified verdict, evaluated on the partition"""
    if 'minimum' in d:
        ex = s.truth(d['exclusiveMinimum']) if 'exclusiveMinimum' in d else False
        if s.lt(r, d['minimum']) or ex and s.eq(r, d['minimum']):
            return 'minimum'
    if 'maximum' in d:
        ex = s.truth(d['exclusiveMaximum']) if 'exclusiveMaximum' in d else False
        if s.gt(r, d['maximum']) or ex and s.eq(r, d['maximum']):
            return 'maximum'
    if 'multipleOf' in d:
        if not s.truth(d['multipleOf']):
            return None
        if not s.eq(s.binop('Mod', r, d['multipleOf']), 0):
            return 'multipleOf'
    return None


def conv(s, c, v):
    return s.builtin(c, v)


def judge(s, o, d, r, what):
    bad = violated(s, d, r)
    if bad:
        s.check(o.is_exc('ValidationError'), 'reject',
                lambda: '%s: value outside %s has to raise ValidationError, %r' % (what, bad, o), o.site)
    else:
        s.check(o.ok, 'accept', lambda: '%s: value inside every declared bound, %r' % (what, o), o.site)


SETS = [(), ('minimum',), ('maximum',), ('minimum', 'exclusiveMinimum'), ('maximum', 'exclusiveMaximum'),
        ('minimum', 'maximum'), ('minimum', 'exclusiveMinimum', 'maximum', 'exclusiveMaximum'), ('multipleOf',),
        ('minimum', 'exclusiveMaximum', 'maximum', 'multipleOf')]


def check(run):
    def schema(t, f, which, kinds):
        def setup(s):
            d = con(s, which)
            sd = {'type': t}
            sd.update(d)
            if f:
                sd['format'] = f
            app = app_of(s, doc(definitions={'M': sd}))
            return schema_of(s, app, 'M'), s.attr(app, 'prim_factory'), d

        def body(s, pre):
            sch, prim, d = pre
            v = s.sym('v', *kinds)
            r = conv(s, CONV[t, f], v)
            o = s.meth(prim, 'produce', sch, v)
            judge(s, o, d, r, '%s/%s' % (t, f))
            if o.ok:
                s.same_ob(o.value, r, 'value', 'produced %s/%s' % (t, f))
        run.explore('schema %s/%s %s of %s' % (t, f, '+'.join(which) or 'unconstrained', '/'.join(kinds)), body, setup)

    for (t, f) in sorted(CONV, key=str):
        for which in SETS:
            if f in (None, 'int32', 'float', 'double') or which in SETS[1:3] + SETS[7:8]:
                schema(t, f, which, ('int',) if t == 'integer' else ('int', 'float'))
        schema(t, f, ('minimum', 'maximum', 'multipleOf'), ('str',))

    def param(where, t):
        def setup(s):
            d = con(s, SETS[8])
            p = {'name': 'p', 'in': where, 'type': t, 'required': True}
            p.update(d)
            app = app_of(s, opdoc([p], path='/a/{p}' if where == 'path' else '/a'))
            return op_of(s, app), d

        def body(s, pre):
            op, d = pre
            v = s.sym('v', 'int')
            o = s.call(op, p=v)
            judge(s, o, d, v, '%s parameter' % where)
        run.explore('%s parameter %s' % (where, t), body, setup)
    for w in ('query', 'header', 'path', 'formData'):
        param(w, 'integer')
    param('query', 'number')

    def items():
        def setup(s):
            d = con(s, ('minimum', 'exclusiveMinimum', 'maximum', 'multipleOf'))
            p = {'name': 'p', 'in': 'query', 'type': 'array', 'items': dict(d, type='integer')}
            app = app_of(s, opdoc([p]))
            return op_of(s, app), d

        def body(s, pre):
            op, d = pre
            v = s.sym('v', 'int')
            o = s.call(op, p=s.list(7, v) if s.choice('position of the element', 0, 1) else s.list(v))
            if o.is_exc('ValidationError') and violated(s, d, 7):
                raise Skip()
            s.assume(not violated(s, d, 7))
            judge(s, o, d, v, 'array item')
        run.explore('array item', body, setup, max_paths=2000)
    items()

    def header():
        def setup(s):
            d = con(s, ('minimum', 'exclusiveMinimum', 'maximum', 'multipleOf'))
            o = opdoc([])
            o['paths']['/a']['get']['responses']['200']['headers'] = {'X-A': dict(d, type='integer')}
            app = app_of(s, o)
            return op_of(s, app), d

        def body(s, pre):
            op, d = pre
            v = s.sym('v', 'int')
            req, resp = s.items(s.must(op))
            o = s.meth(resp, 'apply_with', status=200, raw='', header=s.dict(('X-A', v)))
            judge(s, o, d, v, 'response header')
        run.explore('response header', body, setup)
    header()

    def both_in_allof():
        def setup(s):
            a = con(s, ('minimum',))
            b = {'maximum': s.sym('max2', 'int', 'float')}
            app = app_of(s, doc(definitions={'M': dict(a, type='integer', allOf=[dict(b, type='integer')])}))
            return schema_of(s, app, 'M'), s.attr(app, 'prim_factory'), a, b

        def body(s, pre):
            sch, prim, a, b = pre
            v = s.sym('v', 'int')
            o = s.meth(prim, 'produce', sch, v)
            judge(s, o, dict(a, **b), v, 'own bound and allOf member bound')
        run.explore('own minimum with an allOf member maximum', body, setup)
    both_in_allof()

    def zero():
        def setup(s):
            d = con(s, ('minimum', 'maximum'))
            app = app_of(s, doc(definitions={'M': dict(d, type='integer')}))
            return schema_of(s, app, 'M'), s.attr(app, 'prim_factory'), d

        def body(s, pre):
            sch, prim, d = pre
            o = s.meth(prim, 'produce', sch, 0)
            judge(s, o, d, 0, 'the value 0')
        run.explore('value 0', body, setup)
    zero()
