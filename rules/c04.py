"""Models.  Objects with generic property names and arbitrary values are produced from declarations combining
properties, required, default, readOnly, discriminator and every form of additionalProperties: each declared property is
produced by its own schema, undeclared ones are kept, converted or dropped as additionalProperties says, defaults fill
in, a missing required property or a readOnly property written in a request raises, nothing else does, and the
caller's dict is untouched."""
from .common import *


def obj_schema(**kw):
    return dict(type='object', **kw)


def produce_setup(s, d, **defs):
    app = app_of(s, doc(definitions=dict(defs, M=d)))
    return schema_of(s, app, 'M'), s.attr(app, 'prim_factory')


def keys_of(s, m):
    return [k for k in s.items(m)]


def expect(s, m, pairs, what):
    """m holds exactly these pairs"""
    ks = keys_of(s, m)
    s.check(len(ks) == len(pairs), 'keys', lambda: '%s: keys %s, specified %s' % (what, [show(k) for k in ks], [show(k) for k, _ in pairs]))
    for k, v in pairs:
        s.check(s.I.contains(m, k), 'keys', lambda: '%s: key %s is missing' % (what, show(k)))
        s.same_ob(s.item(m, k), v, 'value', '%s: value of %s' % (what, show(k)))


def check(run):
    # ---- properties and additionalProperties
    def additional(kind):
        def setup(s):
            a, b, c = name(s, 'declared'), name(s, 'other'), name(s, 'extra')
            d = obj_schema(properties={a: {'type': 'string'}, b: {'type': 'integer', 'minimum': 3}})
            if kind == 'schema':
                d['additionalProperties'] = {'type': 'number'}
            elif kind == 'model':
                d['additionalProperties'] = obj_schema(properties={'x': {'type': 'string'}})
            elif kind != 'absent':
                d['additionalProperties'] = kind
            return produce_setup(s, d), (a, b, c)

        def body(s, pre):
            (sch, prim), (a, b, c) = pre
            va, vb, vc = s.sym('va', 'str'), s.sym('vb', 'int'), s.sym('vc', 'int')
            have = s.choice('given', 'declared', 'other', 'extra', 'all', 'none')
            val = []
            if have in ('declared', 'all'):
                val.append((a, va))
            if have in ('other', 'all'):
                val.append((b, vb))
            inner = None
            if have in ('extra', 'all'):
                inner = s.dict(('x', vc)) if kind == 'model' else vc
                val.append((c, inner))
            arg = s.dict(*val)
            o = s.meth(prim, 'produce', sch, arg)
            if have in ('other', 'all') and s.lt(vb, 3):
                s.check(o.is_exc('ValidationError'), 'reject', lambda: 'property below the minimum of its own schema, %r' % (o,), o.site)
                return
            s.check(o.ok, 'accept', lambda: 'valid object, %r' % (o,), o.site)
            want = [(k, v) for k, v in val if k is not c]
            if inner is not None:
                if kind in ('absent', True):
                    want.append((c, vc))
                elif kind == 'schema':
                    want.append((c, s.builtin('float', vc)))
            ks = keys_of(s, o.value)
            if kind == 'model' and inner is not None:
                s.check(len(ks) == len(want) + 1, 'keys', lambda: 'keys %s' % [show(k) for k in ks])
                s.same_ob(s.item(s.item(o.value, c), 'x'), s.I.mk_str(vc), 'value', 'additional property')
                for k, v in want:
                    s.same_ob(s.item(o.value, k), v, 'value', show(k))
            else:
                expect(s, o.value, want, 'additionalProperties %s' % kind)
            got = s.items(arg)
            s.check(len(got) == len(val), 'argument', 'the dict passed by the caller was modified')
            for k, v in val:
                s.check(s.I.contains(arg, k) and s.same(s.item(arg, k), v), 'argument', 'the dict passed by the caller was modified')
        run.explore('additionalProperties %s' % kind, body, setup)
    for kind in ('absent', True, False, 'schema', 'model'):
        additional(kind)

    # ---- required and default
    def required(with_default):
        def setup(s):
            a, b = name(s, 'declared'), name(s, 'undeclared')
            dflt = s.sym('dflt', 'int')
            p = {'type': 'integer', 'maximum': 9}
            if with_default:
                p['default'] = dflt
            return produce_setup(s, obj_schema(properties={a: p}, required=[a, b])), (a, b, dflt)

        def body(s, pre):
            (sch, prim), (a, b, dflt) = pre
            va, vb = s.sym('va', 'int'), s.sym('vb', 'str')
            have = s.choice('given', 'both', 'declared', 'undeclared', 'none')
            val = []
            if have in ('both', 'declared'):
                val.append((a, va))
            if have in ('both', 'undeclared'):
                val.append((b, vb))
            o = s.meth(prim, 'produce', sch, s.dict(*val))
            eff = va if have in ('both', 'declared') else dflt if with_default else None
            bad = eff is not None and s.gt(eff, 9)
            missing = have in ('none', 'declared') or (have == 'undeclared' and not with_default)
            if bad:
                s.check(o.is_exc('ValidationError', 'ValueError'), 'reject', lambda: 'property above its maximum, %r' % (o,), o.site)
                return
            if missing:
                s.check(o.is_exc('ValueError'), 'required', lambda: 'a required property is missing, specified ValueError, %r' % (o,), o.site)
                return
            s.check(o.ok, 'accept', lambda: 'every required property is there, %r' % (o,), o.site)
            expect(s, o.value, [(a, eff), (b, vb)], 'required')
        run.explore('required properties %s default' % ('with' if with_default else 'without'), body, setup)
    required(False)
    required(True)

    def default(kind):
        """optional property with a default that may be any value"""
        def setup(s):
            a = name(s, 'a')
            dflt = s.sym('dflt', *kind)
            t = {'int': 'integer', 'bool': 'boolean', 'str': 'string'}[kind[0]]
            return produce_setup(s, obj_schema(properties={a: {'type': t, 'default': dflt}, 'plain': {'type': t}})), a, dflt

        def body(s, pre):
            (sch, prim), a, dflt = pre
            given = s.choice('given', True, False)
            v = s.sym('v', *kind)
            o = s.meth(prim, 'produce', sch, s.dict(*([(a, v)] if given else [])))
            s.check(o.ok, 'accept', lambda: 'default, %r' % (o,), o.site)
            expect(s, o.value, [(a, v if given else dflt)], 'default')
        run.explore('default of %s' % '/'.join(kind), body, setup)
    for k in ('int', 'bool', 'str'):
        default((k,))

    # ---- readOnly
    def readonly(where, shape):
        ro = {'type': 'string', 'readOnly': True}
        leaf = obj_schema(properties={'r': ro, 'w': {'type': 'string'}})
        d = {'plain': leaf,
             'nested': obj_schema(properties={'n': leaf}),
             'array': {'type': 'array', 'items': leaf},
             'additional': obj_schema(additionalProperties=leaf),
             'ref': {'$ref': '#/definitions/L'},
             'nested ref': obj_schema(properties={'n': {'$ref': '#/definitions/L'}}),
             'allOf': {'type': 'object', 'allOf': [{'$ref': '#/definitions/L'}]},
             'deep': {'type': 'array', 'items': obj_schema(properties={'n': {'type': 'array', 'items': {'$ref': '#/definitions/L'}}})}}[shape]

        def wrap(s, v):
            return {'plain': lambda: v, 'nested': lambda: s.dict(('n', v)), 'array': lambda: s.list(v),
                    'additional': lambda: s.dict(('k', v)), 'ref': lambda: v, 'nested ref': lambda: s.dict(('n', v)),
                    'allOf': lambda: v, 'deep': lambda: s.list(s.dict(('n', s.list(v))))}[shape]()
        h = Holder(where)

        def setup(s):
            if where == 'schema':
                app = app_of(s, doc(definitions={'M': d, 'L': leaf}))
                return app, schema_of(s, app, 'M')
            o = opdoc([{'name': 'p', 'in': 'body', 'schema': d}] if where == 'body' else [], root={'definitions': {'L': leaf}})
            if where != 'body':
                o['paths']['/a']['get']['responses']['200']['schema'] = d
            app = app_of(s, o)
            return app, op_of(s, app)

        def body(s, x):
            r, w = s.sym('vr', 'str'), s.sym('vw', 'str')
            withr = s.choice('readOnly property given', True, False)
            v = wrap(s, s.dict(*([('r', r)] if withr else []) + [('w', w)]))
            o = h.push(s, x, v)
            if withr and where == 'body':
                s.check(o.is_exc('Exception'), 'readOnly', lambda: 'readOnly property sent in a request (%s), %r' % (shape, o), o.site)
            else:
                s.check(o.ok, 'accept', lambda: '%s %s, %r' % (where, shape, o), o.site)
        run.explore('readOnly %s in %s' % (shape, where), body, setup)
    for shape in ('plain', 'nested', 'array', 'additional', 'ref', 'nested ref', 'allOf', 'deep'):
        readonly('body', shape)
        if shape in ('plain', 'nested ref', 'allOf', 'deep'):
            readonly('response body', shape)
            readonly('schema', shape)

    # ---- discriminator
    def discriminator(ref):
        def setup(s):
            d = obj_schema(properties={'kind': {'type': 'string'}, 'x': {'type': 'string'}}, discriminator='kind', required=['kind'])
            o = opdoc([{'name': 'p', 'in': 'body', 'schema': {'$ref': '#/definitions/Animal'}}], root={'definitions': {'Animal': d}})
            app = app_of(s, o)
            return app, op_of(s, app)

        def body(s, pre):
            app, op = pre
            x, k = s.sym('x', 'str'), s.sym('k', 'str')
            v = s.dict(('x', x), ('kind', k))
            if ref:
                o = s.call(op, p=v)
                s.check(o.ok, 'accept', lambda: 'discriminator, %r' % (o,), o.site)
                m = s.item(s.item(s.attr(s.items(o.value)[0], '_p'), 'body'), 'p')
            else:
                m = s.must(s.attr(s.attr(app, 'prim_factory'), 'produce'), schema_of(s, app, 'Animal'), v)
            s.same_ob(s.item(m, 'kind'), 'Animal', 'discriminator', 'discriminator property')
            s.same_ob(s.item(m, 'x'), x, 'value', 'other property')
        run.explore('discriminator %s' % ('by reference' if ref else 'directly'), body, setup)
    discriminator(True)
    discriminator(False)

    # ---- absent values and attribute access, equality
    def nulls():
        def setup(s):
            return produce_setup(s, obj_schema(properties={'a': {'type': 'string'}, 'b': {'type': 'integer', 'default': s.sym('dflt', 'int')},
                                                           'c': obj_schema(), 'd': {'type': 'array', 'items': {'type': 'string'}}}))

        def body(s, pre):
            sch, prim = pre
            o = s.meth(prim, 'produce', sch, s.dict(('a', None), ('b', None), ('c', None), ('d', None)))
            s.check(o.ok, 'accept', lambda: 'null property values, %r' % (o,), o.site)
            expect(s, o.value, [('a', None), ('b', s.sym('dflt', 'int')), ('c', None), ('d', None)], 'null values')
        run.explore('null property values', body, setup)
    nulls()

    def access():
        def setup(s):
            return produce_setup(s, obj_schema(properties={'a': {'type': 'string'}}))

        def body(s, pre):
            sch, prim = pre
            v, w = s.sym('v', 'str'), s.sym('w', 'str')
            m = s.must(s.attr(prim, 'produce'), sch, s.dict(('a', v)))
            s.same_ob(s.attr(m, 'a'), v, 'attribute', 'attribute access')
            n = s.must(s.attr(prim, 'produce'), sch, s.dict(('a', w)))
            s.check(s.truth(s.I.eq(m, n)) == s.eq(v, w), 'equality', 'two models are equal when their properties are')
            plain = s.dict(('a', w), ('z', None))
            s.check(s.truth(s.I.eq(m, plain)) == s.eq(v, w), 'equality', 'a property holding null equals an absent one')
            other = s.dict(('a', v), ('z', w))
            s.check(not s.truth(s.I.eq(m, other)), 'equality', 'an additional property makes models different')
        run.explore('attribute access and equality', body, setup)

        def more(s, pre):
            sch, prim = pre
            left, right = s.choice('models', (('a', 'b', 'c'), ('a', 'b', 'c')), (('a', 'b'), ('b', 'a')), (('a',), ('a', 'b')), (('a', 'b'), ('a',)), (('b', None), ('a', 'b')), ((), ('a',)), ((), ()))
            differ = s.choice('value that differs', None, 'a', 'b', 'c')
            if differ is not None and not (differ in left and differ in right):
                raise Skip()
            xs = {k: s.choice('value ' + k, 0, '', 'x') if k == 'a' else 'v' + k for k in 'abc'}
            m = s.must(s.attr(prim, 'produce'), sch, s.dict(*[(k, xs[k]) for k in left if k]))
            o = s.dict(*[(k, 'other' if k == differ else xs[k]) for k in right])
            if s.choice('other one is', 'a dict', 'a model') == 'a model':
                o = s.must(s.attr(prim, 'produce'), sch, o)
            want = differ is None and set(filter(None, left)) == set(right)
            s.check(s.truth(s.I.eq(m, o)) == want, 'equality', lambda: 'a model of %s equals %s: specified %s' % (show(m), show(o), want))
            s.check(s.truth(s.I.compare('NotEq', m, o)) != want, 'equality', lambda: 'a model of %s differs from %s: specified %s' % (show(m), show(o), not want))
        run.explore('equality of models', more, lambda s: produce_setup(s, obj_schema(additionalProperties=True)))
    access()

    def recursive():
        def setup(s):
            d = obj_schema(properties={'v': {'type': 'integer'}, 'next': {'$ref': '#/definitions/M'}, 'all': {'type': 'array', 'items': {'$ref': '#/definitions/M'}}})
            app = app_of(s, doc(definitions={'M': d}), prepare=False)
            s.must(s.attr(app, 'prepare'), strict=False)
            return schema_of(s, app, 'M'), s.attr(app, 'prim_factory')

        def body(s, pre):
            sch, prim = pre
            a, b, c = [s.sym(x, 'int') for x in 'abc']
            leaf = s.dict(('v', c))
            v = s.dict(('v', a), ('next', s.dict(('v', b), ('next', leaf))), ('all', s.list(s.dict(('v', b)), leaf)))
            o = s.meth(prim, 'produce', sch, v)
            s.check(o.ok, 'accept', lambda: 'recursive model, %r' % (o,), o.site)
            s.same_ob(s.item(s.item(s.item(o.value, 'next'), 'next'), 'v'), c, 'value', 'nested value')
            s.same_ob(s.item(s.item(s.item(o.value, 'all'), 1), 'v'), c, 'value', 'nested value in the array')
        run.explore('recursive model', body, setup)
    recursive()
