"""Arrays.  For arrays of 0..3 arbitrary elements in every place that can declare one: the elements are
converted one by one and in order (a string is first split at the separator of its collectionFormat),
repeated elements are dropped exactly when uniqueItems is set, ValidationError is raised exactly when the
resulting number of elements is below minItems or above maxItems, and the text sent is the elements joined by the
separator of the collectionFormat, or one pair per element for multi."""
from .common import *

SEP = {None: ',', 'csv': ',', 'ssv': ' ', 'tsv': '\t', 'pipes': '|'}
NOSEP = ' ,\t|'
ARRAY_HOLDERS = ('schema', 'property', 'additional', 'element', 'query', 'header', 'path', 'formData', 'item', 'response header',
                 'body', 'response body')


def joined(s, sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(s.I.mk_str(x))
    return s.cat(*out) if out else ''


def elements(s, o, h, what, want):
    """the produced elements against the specified ones"""
    got = h.result(s, o)
    if got is not None:
        g = s.items(got)
        s.check(len(g) == len(want), 'number of elements', lambda: '%s: %d elements, specified %d' % (what, len(g), len(want)))
        for a, b in zip(g, want):
            s.same_ob(a, b, 'element', what + ': element')
    else:
        w = h.wire(s, o)
        w = w if isinstance(w, list) else [w]
        s.check(len(w) == 1, 'one value', lambda: '%s: %d values sent, specified one' % (what, len(w)))
        x = joined(s, ',', want)
        if h.kind == 'item':
            pass
        s.same_ob(w[0], x, 'wire', what + ': text sent')


def check(run):
    # ------------------------------------------------ element count and limits
    def limits(kind, which, n, asstr=False):
        h = Holder(kind)

        def setup(s):
            d = {'type': 'array', 'items': {'type': 'string'}}
            for k in which:
                d[k] = True if k == 'uniqueItems' else s.sym(k, 'int')
            return h.build(s, d), d

        def body(s, pre):
            x, d = pre
            for k in ('minItems', 'maxItems'):
                if k in d:
                    s.assume(not s.lt(d[k], 0))
            xs = [s.sym('e%d' % i, 'str', nochars=NOSEP) for i in range(n)]
            if asstr:
                for e in xs:
                    s.assume(s.truth(e))
                v = joined(s, ',', xs)
            else:
                v = s.list(*xs) if 'uniqueItems' not in which or s.choice('given as', 'list', 'tuple') == 'list' else tuple(xs)
            o = h.push(s, x, v)
            want = xs
            if 'uniqueItems' in which:
                want = []
                for e in xs:
                    if not any(s.eq(e, w) for w in want):
                        want.append(e)
            if asstr and not n:
                want = ['']
            bad = None
            if 'minItems' in d and s.gt(d['minItems'], len(want)):
                bad = 'minItems'
            if 'maxItems' in d and s.lt(d['maxItems'], len(want)):
                bad = 'maxItems'
            if bad:
                s.check(o.is_exc('ValidationError'), 'reject', lambda: '%s: %d elements violating %s have to raise ValidationError, %r'
                        % (kind, len(want), bad, o), o.site)
                return
            s.check(o.ok, 'accept', lambda: '%s: array satisfying the declaration, %r' % (kind, o), o.site)
            elements(s, o, h, kind, want)
        run.explore('%s array %s with %d elements%s' % (kind, '+'.join(which) or 'unconstrained', n, ' as text' if asstr else ''), body, setup)

    for kind in ARRAY_HOLDERS:
        limits(kind, ('minItems', 'maxItems'), 2)
        limits(kind, ('uniqueItems',), 3 if kind in ('schema', 'query') else 2)
    for n in (0, 1, 3):
        limits('schema', ('minItems', 'maxItems'), n)
        limits('schema', (), n)
    limits('schema', ('minItems', 'maxItems', 'uniqueItems'), 2)
    limits('query', ('minItems', 'maxItems', 'uniqueItems'), 2)
    for kind in ('schema', 'query', 'header', 'path', 'formData', 'response header'):
        limits(kind, ('minItems', 'maxItems'), 2, True)
        limits(kind, ('uniqueItems',), 2, True)

    # ------------------------------------------------ separators
    def wire(where, cf, n, et, asstr):
        def setup(s):
            p = {'name': 'p', 'in': where, 'type': 'array', 'items': {'type': et}, 'required': True}
            if cf:
                p['collectionFormat'] = cf
            return op_of(s, app_of(s, opdoc([p], path='/a/{p}' if where == 'path' else '/a')))

        def body(s, op):
            if et == 'string':
                xs = [s.token('e%d' % i, nochars=NOSEP) for i in range(n)]
            else:
                xs = [s.sym('e%d' % i, 'int') for i in range(n)]
            v = joined(s, SEP[cf], xs) if asstr else s.list(*xs)
            o = s.call(op, p=v)
            s.check(o.ok, 'accept', lambda: '%s array, %r' % (cf, o), o.site)
            req = s.items(o.value)[0]
            p = s.item(s.attr(req, '_p'), where)
            if where in ('header', 'path'):
                s.same_ob(s.item(p, 'p'), joined(s, SEP[cf], xs), 'wire', '%s array in %s' % (cf, where))
                return
            got = [s.items(t) for t in s.items(p)]
            want = [('p', s.I.mk_str(x)) for x in xs] if cf == 'multi' else [('p', joined(s, SEP[cf], xs))]
            s.check(len(got) == len(want), 'pairs', lambda: '%s array of %d in %s: %d pairs sent, specified %d' % (cf, n, where, len(got), len(want)))
            for g, w in zip(got, want):
                s.same_ob(g[0], w[0], 'name', 'name sent')
                s.same_ob(g[1], w[1], 'wire', '%s array in %s' % (cf, where))
        run.explore('%s array of %d %s in %s%s' % (cf, n, et, where, ' as text' if asstr else ''), body, setup)
    for where in ('query', 'header', 'path', 'formData'):
        for cf in (None, 'csv', 'ssv', 'tsv', 'pipes', 'multi'):
            if cf == 'multi' and where in ('header', 'path'):
                continue
            wire(where, cf, 2, 'string', False)
            if cf != 'multi':
                wire(where, cf, 2, 'string', True)
    for cf in ('ssv', 'multi'):
        wire('query', cf, 3, 'integer', False)
        wire('query', cf, 1, 'integer', False)
    wire('query', 'multi', 0, 'string', False)

    def gaps(where, cf):
        def setup(s):
            p = {'name': 'p', 'in': where, 'type': 'array', 'items': {'type': 'string'}, 'required': True}
            if cf:
                p['collectionFormat'] = cf
            return op_of(s, app_of(s, opdoc([p])))

        def body(s, op):
            a, b = s.token('a', nochars=NOSEP), s.token('b', nochars=NOSEP)
            xs = s.choice('elements', (a, '', b), ('', a), (a, ''), ('', ''), (a, '', '', b), ('', a, ''))
            v = joined(s, SEP[cf], xs)
            o = s.call(op, p=v)
            s.check(o.ok, 'accept', lambda: '%s text with empty elements, %r' % (cf, o), o.site)
            p = s.item(s.attr(s.items(o.value)[0], '_p'), where)
            got = s.item(p, 'p') if where == 'header' else s.items(s.items(p)[0])[1]
            s.same_ob(got, v, 'wire', '%s text with empty elements in %s' % (cf, where))
        run.explore('%s text with empty elements in %s' % (cf, where), body, setup)
    for where in ('query', 'header', 'formData'):
        for cf in SEP:
            gaps(where, cf)

    def split_elsewhere(cf):
        def setup(s):
            o = opdoc([])
            d = {'type': 'array', 'items': {'type': 'string'}}
            if cf:
                d['collectionFormat'] = cf
            o['paths']['/a']['get']['responses']['200']['headers'] = {'X-A': d}
            return op_of(s, app_of(s, o))

        def body(s, op):
            xs = [s.token('e%d' % i, nochars=NOSEP) for i in range(2)]
            req, resp = s.items(s.must(op))
            o = s.meth(resp, 'apply_with', status=200, raw='', header=s.dict(('X-A', joined(s, SEP[cf], xs))))
            s.check(o.ok, 'accept', lambda: 'array header, %r' % (o,), o.site)
            got = s.items(s.item(s.item(s.attr(resp, 'header'), 'X-A'), 0))
            s.check(len(got) == 2, 'number of elements', 'response header %s: %d elements, specified 2' % (cf, len(got)))
            for g, x in zip(got, xs):
                s.same_ob(g, x, 'element', 'response header element')
        run.explore('%s array in a response header' % cf, body, setup)
    for cf in SEP:
        split_elsewhere(cf)

    def nested():
        def setup(s):
            p = {'name': 'p', 'in': 'query', 'type': 'array', 'collectionFormat': 'pipes',
                 'items': {'type': 'array', 'collectionFormat': 'ssv', 'items': {'type': 'string'}}}
            q = {'name': 'q', 'in': 'query', 'type': 'array', 'collectionFormat': 'pipes',
                 'items': {'type': 'array', 'items': {'type': 'string'}}}
            return op_of(s, app_of(s, opdoc([p, q])))

        def body(s, op):
            xs = [s.token('e%d' % i, nochars=NOSEP) for i in range(4)]
            form = s.choice('inner arrays given as', 'lists', 'text')
            for nm, sep in (('p', ' '), ('q', ',')):
                if form == 'lists':
                    v = s.list(s.list(*xs[:2]), s.list(*xs[2:]))
                else:
                    v = s.list(joined(s, sep, xs[:2]), joined(s, sep, xs[2:]))
                o = s.call(op, **{nm: v})
                s.check(o.ok, 'accept', lambda: 'nested array, %r' % (o,), o.site)
                got = s.items(s.item(s.attr(s.items(o.value)[0], '_p'), 'query'))
                s.check(len(got) == 1, 'pairs', 'nested array sends %d pairs' % len(got))
                s.same_ob(s.items(got[0])[1], s.cat(joined(s, sep, xs[:2]), '|', joined(s, sep, xs[2:])), 'wire', 'nested array')
        run.explore('nested arrays', body, setup)
    nested()

    def unsupported(cf, where, v):
        def setup(s):
            p = {'name': 'p', 'in': where, 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': cf, 'required': True}
            return op_of(s, app_of(s, opdoc([p], path='/a/{p}' if where == 'path' else '/a')))

        def body(s, op):
            t = s.token('t', nochars=NOSEP)
            o = s.call(op, p=s.list(t) if v == 'list' else t)
            s.check(o.is_exc('SchemaError'), 'unsupported', lambda: 'collectionFormat %s in %s has no text form, specified SchemaError, %r'
                    % (cf, where, o), o.site)
        run.explore('unsupported %s in %s of %s' % (cf, where, v), body, setup)
    unsupported('bogus', 'query', 'list')
    unsupported('bogus', 'query', 'str')
    unsupported('bogus', 'header', 'list')
    unsupported('multi', 'header', 'list')
    unsupported('multi', 'path', 'list')

    # ------------------------------------------------ elements are validated
    def element_constraint(kind):
        h = Holder(kind)

        def setup(s):
            return h.build(s, {'type': 'array', 'items': {'type': 'integer', 'minimum': 3}})

        def body(s, x):
            e = s.sym('e', 'int')
            pos = s.choice('position', 0, 1, 2)
            xs = [7, 8]
            xs.insert(pos, e)
            o = h.push(s, x, s.list(*xs))
            if s.lt(e, 3):
                s.check(o.is_exc('ValidationError'), 'reject', lambda: '%s: element %d below the minimum of the items, %r' % (kind, pos, o), o.site)
            else:
                s.check(o.ok, 'accept', lambda: '%s: %r' % (kind, o), o.site)
                elements(s, o, h, kind, xs)
        run.explore('%s elements obey items' % kind, body, setup)
    for kind in ARRAY_HOLDERS:
        element_constraint(kind)

    def not_mutated():
        def setup(s):
            app = app_of(s, doc(definitions={'M': {'type': 'array', 'uniqueItems': True, 'items': {'type': 'integer'}}}))
            return schema_of(s, app, 'M'), s.attr(app, 'prim_factory')

        def body(s, pre):
            sch, prim = pre
            a, b = s.sym('a', 'int'), s.sym('b', 'int')
            v = s.list(a, b)
            s.must(s.attr(prim, 'produce'), sch, v)
            got = s.items(v)
            s.check(len(got) == 2 and s.same(got[0], a) and s.same(got[1], b), 'argument', 'the list passed by the caller was modified')
        run.explore('argument list is not modified', body, setup)
    not_mutated()
