"""allOf.  Schemas combined of their own declarations and up to three members (inline, by reference, nested) with generic
property names and arbitrary bounds: every property is converted by the schema that declares it, bounds and required
lists of all members apply, the prepared (final) view lists the properties of all members."""
import itertools
from .common import *
from .c04 import expect


def setup_defs(s, defs, name='M'):
    app = app_of(s, doc(definitions=defs))
    return schema_of(s, app, name), s.attr(app, 'prim_factory')


def check(run):
    def members(shape):
        def setup(s):
            lim = {k: s.sym('max_' + k, 'int') for k in 'abc'}
            A = {'type': 'object', 'properties': {'a': {'type': 'integer', 'maximum': lim['a']}}}
            B = {'properties': {'b': {'type': 'integer', 'maximum': lim['b']}}}
            O = {'c': {'type': 'integer', 'maximum': lim['c']}}
            rA, rB = {'$ref': '#/definitions/A'}, {'$ref': '#/definitions/B'}
            defs = {'A': A, 'B': B}
            defs['M'] = {
                'inline': lambda: {'type': 'object', 'properties': O, 'allOf': [A, B]},
                'reversed': lambda: {'type': 'object', 'properties': O, 'allOf': [rB, rA]},
                'refs': lambda: {'type': 'object', 'properties': O, 'allOf': [rA, rB]},
                'untyped': lambda: {'properties': O, 'allOf': [rA, rB]},
                'no own properties': lambda: {'allOf': [rA, rB, {'properties': O}]},
                'own part last': lambda: {'type': 'object', 'allOf': [rA, rB, {'type': 'object', 'properties': O}]},
                'nested': lambda: {'type': 'object', 'allOf': [{'allOf': [{'allOf': [rA]}, rB]}, {'properties': O}]},
                'nested by reference': lambda: {'type': 'object', 'properties': O, 'allOf': [{'$ref': '#/definitions/P'}]},
                'diamond': lambda: {'type': 'object', 'properties': O, 'allOf': [{'$ref': '#/definitions/P'}, {'$ref': '#/definitions/Q'}]},
                'referenced': lambda: {'$ref': '#/definitions/N'},
            }[shape]()
            if shape == 'nested by reference':
                defs['P'] = {'type': 'object', 'properties': B['properties'], 'allOf': [{'$ref': '#/definitions/PP'}]}
                defs['PP'] = {'allOf': [rA]}
            if shape == 'diamond':
                defs['P'] = {'allOf': [rA, {'type': 'object'}]}
                defs['Q'] = {'allOf': [rA, rB]}
            if shape == 'referenced':
                defs['N'] = {'properties': O, 'allOf': [rA, rB]}
            return setup_defs(s, defs), lim

        def body(s, pre):
            (sch, prim), lim = pre
            have = s.choice('given', 'a', 'b', 'c', 'ab', 'ac', 'bc', 'abc', '')
            vs = {k: s.sym('v' + k, 'int') for k in have}
            arg = s.dict(*[(k, vs[k]) for k in have])
            o = s.meth(prim, 'produce', sch, arg)
            bad = [k for k in have if s.gt(vs[k], lim[k])]
            if bad:
                s.check(o.is_exc('ValidationError'), 'reject', lambda: '%s: property %s above the maximum of the member that declares it, %r'
                        % (shape, bad[0], o), o.site)
                return
            s.check(o.ok, 'accept', lambda: '%s: valid for every member, %r' % (shape, o), o.site)
            expect(s, o.value, [(k, vs[k]) for k in have], shape)
        run.explore('members %s' % shape, body, setup)
    for sh in ('inline', 'reversed', 'refs', 'untyped', 'no own properties', 'own part last', 'nested', 'nested by reference', 'diamond', 'referenced'):
        members(sh)

    # values must be converted, not just kept: a format whose value differs from its text
    def converted(order):
        def setup(s):
            mem = [{'$ref': '#/definitions/A'}, {'$ref': '#/definitions/B'}, {'properties': {'n': {'$ref': '#/definitions/B'}}}]
            return setup_defs(s, {'A': {'properties': {'x': {'type': 'string', 'format': 'byte'}}},
                                  'B': {'properties': {'y': {'type': 'number'}, 'z': {'type': 'array', 'items': {'type': 'string'}}}},
                                  'M': {'type': 'object', 'allOf': [mem[i] for i in order]}})

        def body(s, pre):
            sch, prim = pre
            x, y, z, w = s.sym('x', 'str'), s.sym('y', 'int'), s.sym('z', 'int'), s.sym('w', 'int')
            o = s.meth(prim, 'produce', sch, s.dict(('x', x), ('y', y), ('z', s.list(z)), ('n', s.dict(('y', w)))))
            s.check(o.ok, 'accept', lambda: 'members in order %s, %r' % (order, o), o.site)
            m = o.value
            s.same_ob(s.builtin('str', s.item(m, 'x')), x, 'converted', 'byte property')
            s.check(s.I.cls_of(s.item(m, 'x')).name == 'Byte', 'converted', 'byte property is not converted: %s' % show(s.item(m, 'x')))
            s.same_ob(s.item(m, 'y'), s.builtin('float', y), 'converted', 'number property')
            s.same_ob(s.item(s.item(m, 'z'), 0), s.I.mk_str(z), 'converted', 'array element')
            s.same_ob(s.item(s.item(m, 'n'), 'y'), s.builtin('float', w), 'converted', 'number property of the nested model')
        run.explore('conversion with members %s' % (order,), body, setup)
    for order in ((0, 1, 2), (1, 0, 2), (2, 1, 0)):
        converted(order)

    def required(order, where):
        def setup(s):
            mem = [{'properties': {'a': {'type': 'string'}}}, {'properties': {'b': {'type': 'string'}}, 'required': ['a']}, {'required': ['b']}]
            if where == 'own':
                d = {'type': 'object', 'required': ['a'], 'allOf': [mem[i] for i in order if i != 1] + [{'properties': mem[1]['properties']}]}
            else:
                d = {'type': 'object', 'allOf': [mem[i] for i in order]}
            return setup_defs(s, {'M': d})

        def body(s, pre):
            sch, prim = pre
            have = s.choice('given', '', 'a', 'b', 'ab')
            o = s.meth(prim, 'produce', sch, s.dict(*[(k, s.sym('v' + k, 'str')) for k in have]))
            if have != 'ab':
                s.check(o.is_exc('ValueError'), 'required', lambda: 'required property missing (given: %s), %r' % (have, o), o.site)
            else:
                s.check(o.ok, 'accept', lambda: 'all required properties given, %r' % (o,), o.site)
                expect(s, o.value, [(k, s.sym('v' + k, 'str')) for k in have], 'required')
        run.explore('required across members %s %s' % (order, where), body, setup)
    for order in ((0, 1, 2), (2, 1, 0), (1, 2, 0)):
        required(order, 'members')
    required((0, 2), 'own')

    def scalar(own, mems, t):
        def setup(s):
            d = dict({k: s.sym('own_' + k, 'int') for k in own}, allOf=[dict({k: s.sym('m%d_%s' % (i, k), 'int') for k in m}, **({'type': t} if i == typed else {}))
                                                                      for i, m in enumerate(mems)])
            if typed is None:
                d['type'] = t
            return setup_defs(s, {'M': d}), d
        typed = None if own is not None and t[0] != '!' else int(t[1])
        t = t if t[0] != '!' else t[2:]
        own = own or ()

        def body(s, pre):
            (sch, prim), d = pre
            v = s.sym('v', 'int' if t == 'integer' else 'str')
            m = v if t == 'integer' else s.len(v)
            for x in [d] + d['allOf']:
                for k in ('minLength', 'maxLength'):
                    if k in x:
                        s.assume(not s.lt(x[k], 0))
            o = s.meth(prim, 'produce', sch, v)
            bad = False
            for x in [d] + d['allOf']:
                for k, f in (('minimum', s.lt), ('maximum', s.gt), ('minLength', s.lt), ('maxLength', s.gt)):
                    if k in x and f(m, x[k]):
                        bad = True
            if bad:
                s.check(o.is_exc('ValidationError'), 'reject', lambda: 'value outside a bound of a member, %r' % (o,), o.site)
            else:
                s.check(o.ok, 'accept', lambda: 'value inside all bounds, %r' % (o,), o.site)
                s.same_ob(o.value, v, 'value', 'value')
        run.explore('scalar %s own %s members %s' % (t, '+'.join(own), mems), body, setup)
    scalar(('minimum',), [('maximum',)], 'integer')
    scalar(('maximum',), [('minimum',), ('maximum',)], 'integer')
    scalar((), [('minimum',), ('maximum',)], 'integer')
    scalar(('minLength',), [('maxLength',)], 'string')
    scalar(('maxLength',), [('minLength',), ('maxLength',)], 'string')
    scalar(None, [('minimum',), ('maximum',)], '!0integer')
    scalar(None, [('minimum',), ('maximum',)], '!1integer')
    scalar(None, [('minLength',), ('maxLength',)], '!0string')

    def boolean():
        for i, d in enumerate(({'type': 'boolean', 'allOf': [{}]}, {'type': 'boolean', 'allOf': [{'description': 'x', 'maxLength': 1, 'minimum': 2}, {'type': 'boolean'}]}, {'allOf': [{'type': 'boolean'}, {'description': 'x', 'maxLength': 1, 'maximum': 0}]},
                               {'allOf': [{'description': 'x'}, {'type': 'boolean'}]}, {'allOf': [{'allOf': [{'type': 'boolean'}]}, {}]}, {'allOf': [{}, {'type': 'boolean'}, {}]})):
            def setup(s, d=d):
                return setup_defs(s, {'M': d})

            def body(s, pre, d=d):
                sch, prim = pre
                v = s.choice('value', True, False)
                o = s.meth(prim, 'produce', sch, v)
                s.check(o.ok, 'accept', lambda: '%s of %s: %r' % (v, d, o), o.site)
                s.same_ob(o.value, v, 'value', 'value of %s' % d)
            run.explore('boolean of members %d' % i, body, setup)
    boolean()

    def array():
        def setup(s):
            return setup_defs(s, {'M': {'type': 'array', 'items': {'type': 'integer', 'minimum': 0}, 'allOf': [{'minItems': s.sym('lo', 'int')}, {'maxItems': s.sym('hi', 'int')}]}})

        def body(s, pre):
            sch, prim = pre
            lo, hi = s.sym('lo', 'int'), s.sym('hi', 'int')
            s.assume(not s.lt(lo, 0) and not s.lt(hi, 0))
            n = s.choice('elements', 0, 1, 2)
            o = s.meth(prim, 'produce', sch, s.list(*range(n)))
            if s.gt(lo, n) or s.lt(hi, n):
                s.check(o.is_exc('ValidationError'), 'reject', lambda: 'number of elements outside the limits of a member, %r' % (o,), o.site)
            else:
                s.check(o.ok, 'accept', lambda: '%r' % (o,), o.site)
                g = s.items(o.value)
                s.check(len(g) == n, 'elements', '%d elements, specified %d' % (len(g), n))
        run.explore('array limits of members', body, setup)
    array()

    def arrays(lim, nested):
        """type, items and limits of an array declared by different schemas"""
        places = ('own', 'first', 'second')

        def setup(s):
            defs = {}
            for at in itertools.product(places, repeat=3):
                ds = {'own': {}, 'first': {}, 'second': {}}
                ds[at[0]]['type'] = 'array'
                ds[at[1]]['items'] = {'type': 'integer'}
                ds[at[2]][lim] = True if lim == 'uniqueItems' else s.sym('limit', 'int')
                defs['M%d' % len(defs)] = dict(ds['own'], allOf=[dict(ds['first'], allOf=[ds['second']])] if nested else [ds['first'], ds['second']])
            app = app_of(s, doc(definitions=defs))
            return {k: schema_of(s, app, k) for k in defs}, s.attr(app, 'prim_factory'), defs

        def body(s, pre):
            schs, prim, defs = pre
            k = s.choice('schema', *sorted(defs))
            d, x = defs[k], s.sym('limit', 'int')
            s.assume(not s.lt(x, 0))
            n = s.choice('elements', 0, 2)
            o = s.meth(prim, 'produce', schs[k], s.list(*[str(i) for i in range(n)]))
            if lim == 'minItems' and s.gt(x, n) or lim == 'maxItems' and s.lt(x, n):
                s.check(o.is_exc('ValidationError'), 'reject', lambda: '%d elements outside the limit of %s, %r' % (n, d, o), o.site)
            else:
                s.check(o.ok, 'accept', lambda: '%d elements within the limit of %s, %r' % (n, d, o), o.site)
                g = s.items(o.value)
                s.check(len(g) == n, 'elements', lambda: '%d elements of %s, specified %d' % (len(g), d, n))
                for i, e in enumerate(g):
                    s.same_ob(e, i, 'element', 'element converted by the items of %s' % d)
        run.explore('%s of arrays declared by several %s schemas' % (lim, 'nested' if nested else 'sibling'), body, setup)
    for lim in ('minItems', 'maxItems', 'uniqueItems'):
        for nested in (False, True):
            arrays(lim, nested)

    def late(t, k):
        """constraints of a schema whose type is given by a member"""
        def setup(s):
            own = {k: s.sym('limit', 'int') if k != 'enum' else ['x', 'y']}
            ms = {'typed': [{'type': t}], 'typed last': [{}, {'type': t}], 'typed first': [{'type': t}, {}], 'nested': [{'allOf': [{'type': t}]}], 'by reference': [{'$ref': '#/definitions/B'}]}
            app = app_of(s, doc(definitions=dict({n: dict(own, allOf=m) for n, m in ms.items()}, B={'type': t})))
            return {n: schema_of(s, app, n) for n in ms}, s.attr(app, 'prim_factory')

        def body(s, pre):
            schs, prim = pre
            shape = s.choice('members', *sorted(schs))
            v = s.sym('v', 'int' if t == 'integer' else 'str')
            m, x = v if t == 'integer' else s.len(v), s.sym('limit', 'int')
            if t == 'string':
                s.assume(not s.lt(x, 0))
            o = s.meth(prim, 'produce', schs[shape], v)
            if k == 'enum':
                bad = not s.eq(v, 'x') and not s.eq(v, 'y')
            else:
                bad = (s.lt if k[:3] == 'min' else s.gt)(m, x)
            if bad:
                s.check(o.is_exc('ValidationError'), 'reject', lambda: 'value outside %s of the schema itself, its members %s: %r' % (k, shape, o), o.site)
            else:
                s.check(o.ok, 'accept', lambda: 'value that meets %s of the schema itself, its members %s: %r' % (k, shape, o), o.site)
                s.same_ob(o.value, v, 'value', 'value')
        run.explore('%s of a %s typed by a member' % (k, t), body, setup)
    for t, k in (('integer', 'minimum'), ('integer', 'maximum'), ('string', 'minLength'), ('string', 'maxLength'), ('string', 'enum')):
        late(t, k)

    # ---- the aggregated view
    def final_view(shape):
        def setup(s):
            P = lambda *ks: {k: {'type': 'string', 'description': k} for k in ks}
            A = {'type': 'object', 'required': ['a'], 'properties': P('a', 'shared')}
            B = {'properties': P('b'), 'required': ['b'], 'description': 'of B'}
            M = {'properties': {'c': {'type': 'string'}, 'shared': {'type': 'integer'}}, 'required': ['c'], 'allOf': [{'$ref': '#/definitions/A'}, B]}
            defs = {'A': A, 'M': M}
            if shape == 'nested':
                M['allOf'] = [{'$ref': '#/definitions/P'}, B]
                defs['P'] = {'allOf': [{'$ref': '#/definitions/A'}]}
            if shape == 'single':
                M['allOf'] = [{'$ref': '#/definitions/A'}]
            if shape == 'none':
                M['allOf'] = []
            return setup_defs(s, defs)

        def body(s, pre):
            sch, _ = pre
            f = s.attr(sch, 'final')
            props = s.attr(f, 'properties')
            want = ['c', 'shared'] + ({'nested': ['a', 'b'], 'refs': ['a', 'b'], 'single': ['a'], 'none': []}[shape])
            ks = sorted(s.items(props))
            s.check(ks == sorted(want), 'properties', lambda: 'combined properties %s, specified %s' % (ks, sorted(want)))
            s.check(s.attr(s.item(props, 'shared'), 'type') == 'integer', 'own first', 'a property declared by the schema itself has to win')
            req = sorted(s.items(s.attr(f, 'required')))
            wr = sorted(['c'] + [x for x in want if x in 'ab'])
            s.check(req == wr, 'required', lambda: 'combined required list %s, specified %s' % (req, wr))
            own = sorted(s.items(s.attr(sch, 'properties')))
            s.check(own == ['c', 'shared'], 'unchanged', 'the declaration itself lists %s now' % own)
            if shape in ('nested', 'refs'):
                s.check(s.attr(f, 'description') == 'of B', 'fields', 'fields of the members are combined')
        run.explore('combined view %s' % shape, body, setup)
    for sh in ('refs', 'nested', 'single', 'none'):
        final_view(sh)
