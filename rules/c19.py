"""Dump and compare.  Over the field tables of C18: documents with generic field values at every place (leaves of every kind the
field may have, falsy ones included, nested objects in every container) are loaded and dumped; the dump has to hold exactly the
given fields.  Two objects that differ in one field, element, key or nested field compare unequal, equal ones equal."""
from .common import *
from .c18 import Version, put, sub

FALSY = (0, False, '', 0.0)


def same_plain(s, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            m = [w for kk, w in b.items() if s.same(k, kk)]
            if not m or not same_plain(s, v, m[0]):
                return False
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_plain(s, x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool) and not isinstance(a, Term) and not isinstance(b, Term):
        return False
    return s.same(a, b)


def check(run):
    v = Version('2.0')
    for k in sorted(v.table):
        for path in v.places[k]:
            dump(run, v, k, path, path in v.places[k][:2])
        compare(run, v, k, v.places[k][0])
    prepared(run)
    lengths(run, v)
    nested_empty(run, v)


def nested_empty(run, v):
    def body(s):
        path, d = s.choice('value', (('paths', '/a', 'get'), {'security': [{'k': []}]}), (('definitions', 'M'), {'example': {'k': {}}}))
        o = v.load(s, path, d)
        s.check(o.ok, 'load', lambda: '%r' % (o,), o.site)
        got = dumped(s, o.value)
        s.check(same_plain(s, got, put({'swagger': '2.0'}, path, d)), 'dump', lambda: 'an empty list or map inside a value is dumped as %s' % (got,))
    run.explore('dump of empty values inside values', body)

    def nulls(s):
        d = {'example': {'k': None}}
        o = v.load(s, ('definitions', 'M'), d)
        o = s.meth(s.attr(o.value, 'raw'), 'dump')
        s.check(o.ok, 'dump', lambda: 'dump of a value that holds null: %r' % (o,), o.site)
        s.check(same_plain(s, plain(s, o.value), put({'swagger': '2.0'}, ('definitions', 'M'), d)), 'dump', 'null inside a value')
    run.explore('dump of null inside values', nulls)


def lengths(run, v):
    def body(s):
        x, y = s.token('x'), s.token('y')
        k, path, a, b = s.choice('lists', ('Operation', ('paths', '/a', 'get'), {'tags': [x]}, {'tags': [x, y]}),
                                 ('PathItem', ('paths', '/a'), {'parameters': [{'name': x}]}, {'parameters': [{'name': x}, {'name': y}]}),
                                 ('Schema', ('definitions', 'M'), {'required': [x, y]}, {'required': [x]}),
                                 ('Schema', ('definitions', 'M'), {'allOf': [{'title': x}]}, {'allOf': []}))
        if s.choice('side', 0, 1):
            a, b = b, a
        oa, ob = [v.get(s, v.load(s, path, z).value, path) for z in (a, b)]
        o = s.meth(oa, 'compare', ob)
        s.check(o.ok, 'compare', lambda: 'comparing lists of different length: %r' % (o,), o.site)
        s.check(not s.truth(s.items(o.value)[0]), 'compare', 'lists of different length compare equal')
    run.explore('compare lists of different length', body)


def dumped(s, app):
    """the dump of the raw document"""
    o = s.meth(s.attr(app, 'raw'), 'dump')
    s.check(o.ok, 'dump', lambda: '%r' % (o,), o.site)
    return plain(s, o.value)


def default_of(v, k, f):
    d = v.table[k][2].get(f)
    return [d] if d is not None else []


def dump(run, v, k, path, full):
    leaves = [f for f in v.table[k][0].split() if (k, f) != ('Swagger', 'swagger')]
    nested = v.table[k][1]

    def whole(s, d, what):
        o = v.load(s, path, d)
        s.check(o.ok, 'load', lambda: '%r' % (o,), o.site)
        got = dumped(s, o.value)
        want = put({'swagger': '2.0'}, path, d) if path else {'swagger': '2.0', **d}
        s.check(same_plain(s, got, want), 'dump', lambda: '%s at %s: dump is %s, loaded %s' % (what, '.'.join(map(str, path)), got, want))

    def leaf(s):
        f = s.choice('field', *leaves)
        kinds = s.choice('kind', 'str', 'int', 'float', 'bool', 'list', 'dict')
        if kinds == 'list':
            x = [s.sym('e%d' % i, 'str', 'int', 'float') for i in range(s.choice('elements', 1, 2))]
        elif kinds == 'dict':
            x = {s.token('k'): s.sym('e', 'str', 'int', 'float')}
        else:
            x = s.sym('v', kinds)
        if k == 'Swagger' and f == 'schemes' and kinds != 'list':
            raise Skip()
        if kinds in ('str', 'bool') and f in v.table[k][2] or f in ('deprecated', 'allowEmptyValue'):
            for dflt in (False, 'csv'):
                if not isinstance(x, (list, dict)) and s.eq(x, dflt):
                    raise Skip()
        whole(s, {f: x}, 'field %s' % f)

    def falsy(s):
        f = s.choice('field', *leaves)
        x = s.choice('value', *FALSY)
        if f in ('deprecated', 'allowEmptyValue') and not isinstance(x, str):
            raise Skip()
        if k == 'Swagger' and f == 'schemes':
            raise Skip()
        whole(s, {f: x}, 'field %s' % f)

    def all_given(s):
        whole(s, {f: [s.token('v_' + f)] if f == 'schemes' else s.token('v_' + f) for f in leaves}, 'all fields')

    where = '.'.join(map(str, path)) or 'document'
    if leaves and full:
        run.explore('%s at %s, one field' % (k, where), leaf)
        run.explore('%s at %s, falsy field' % (k, where), falsy)
    if leaves:
        run.explore('%s at %s, all fields' % (k, where), all_given)
    for f, (ct, kind) in nested.items():
        def nest(s, f=f, ct=ct, kind=kind):
            n = s.choice('elements', 1, 2) if ct else 1
            lf = v.table[kind][0].split()[-1] if v.table[kind][0] else None
            vals = [s.token('v%d' % i) for i in range(n)]
            els = [{lf: x} for x in vals]
            keys = [name(s, 'k%d' % i) for i in range(n)]
            d = {f: els[0] if not ct else els if ct == 'list' else dict(zip(keys, els))}
            if leaves and s.choice('own field', False, True):
                d[leaves[0]] = s.token('own')
            whole(s, d, 'nested %s' % f)
        run.explore('%s at %s, nested %s' % (k, where, f), nest)
    if k == 'Schema':
        def noextra(s):
            whole(s, {'additionalProperties': False}, 'additionalProperties')
        run.explore('Schema at %s, additionalProperties false' % where, noextra)


def compare(run, v, k, path):
    leaves = [f for f in v.table[k][0].split() if (k, f) != ('Swagger', 'swagger')]
    nested = v.table[k][1]

    def two(s, a, b, differ, f):
        oa, ob = [v.get(s, s_must(s, v.load(s, path, x)), path) for x in (a, b)]
        o = s.meth(oa, 'compare', ob)
        s.check(o.ok, 'compare', lambda: '%r' % (o,), o.site)
        r = s.items(o.value)
        s.check(s.truth(r[0]) == (not differ), 'compare', lambda: 'objects with %s %s for field %s compare %s' % ('different' if differ else 'equal', 'values', f, show(r[0])))
        if differ:
            first = r[1]
            s.check(isinstance(first, str) and first.split('/')[0] == f.replace('~', '~0') or not isinstance(first, str), 'path', lambda: 'difference in field %s is reported as %s' % (f, show(first)))

    def s_must(s, o):
        s.check(o.ok, 'load', lambda: '%r' % (o,), o.site)
        return o.value

    def leaf(s):
        f = s.choice('field', *leaves)
        shape = s.choice('shape', 'value', 'list', 'dict', 'absent', 'key', 'type')
        kind = s.choice('kind', 'str', 'int', 'bool') if shape in ('value', 'type') else 'int'
        x, y = s.sym('x', kind), s.sym('y', kind)
        if shape == 'type':
            a, b, differ = {f: x}, {f: s.sym('z', {'str': 'int', 'int': 'str', 'bool': 'str'}[kind])}, True
        elif shape == 'value':
            differ = not s.eq(x, y)
            a, b = {f: x}, {f: y}
        elif shape == 'absent':
            t = s.token('t')
            a, b, differ = {f: t}, {}, True
            if s.choice('side', 0, 1):
                a, b = b, a
        elif shape == 'list':
            differ = not s.eq(x, y)
            z = s.token('z')
            a, b = ({f: [z, x]}, {f: [z, y]}) if s.choice('position', 0, 1) else ({f: [x, z]}, {f: [y, z]})
        elif shape == 'dict':
            differ = not s.eq(x, y)
            a, b = {f: {'k': x}}, {f: {'k': y}}
        else:
            a, b, differ = {f: {'k': x}}, {f: {'l': x}}, True
            c = s.choice('keys', 0, 1, 2)
            if c == 1:
                a = {f: {'k': x, 'l': x}}
            elif c == 2:
                a, b = {f: {'l': x}}, {f: {'k': x, 'l': x}}
        two(s, a, b, differ, f)
    where = '.'.join(map(str, path)) or 'document'
    if leaves:
        run.explore('compare %s at %s' % (k, where), leaf)
    for f, (ct, kind) in nested.items():
        def nest(s, f=f, ct=ct, kind=kind):
            lf = v.table[kind][0].split()[-1]
            x, y = s.token('x'), s.token('y')
            w = lambda *e: e[0] if not ct else list(e) if ct == 'list' else {'k%d' % i: z for i, z in enumerate(e)}
            c = s.choice('difference', 'none', 'nested', 'absent') if not ct else s.choice('difference', 'none', 'nested', 'second', *(['count', 'absent'] if ct != 'list' else []))
            if c == 'none':
                a, b = {f: w({lf: x})}, {f: w({lf: x})}
            elif c == 'nested':
                a, b = {f: w({lf: x})}, {f: w({lf: y})}
            elif c == 'absent':
                a, b = {f: w({lf: x})}, {}
            elif c == 'count':
                a, b = {f: w({lf: x})}, {f: w({lf: x}, {lf: y})}
            else:
                a, b = {f: w({lf: x}, {lf: x})}, {f: w({lf: x}, {lf: y})}
            if c != 'none' and s.choice('side', 0, 1):
                a, b = b, a
            two(s, a, b, c != 'none', f)
        run.explore('compare %s at %s, nested %s' % (k, where, f), nest)

    def kinds(s):
        a = v.get(s, s_must(s, v.load(s, path, {})), path)
        o = s.meth(a, 'compare', a)
        s.check(o.ok and s.truth(s.items(o.value)[0]), 'compare', 'an object differs from itself')
        other = v.get(s, s_must(s, v.load(s, ('info', 'contact') if k != 'Contact' else ('info', 'license'), {})), ('info', 'contact') if k != 'Contact' else ('info', 'license'))
        o = s.meth(a, 'compare', other)
        s.check(o.ok and not s.truth(s.items(o.value)[0]), 'compare', 'objects of different kinds compare equal')
    run.explore('compare %s at %s with itself and others' % (k, where), kinds)


def prepared(run):
    """App.dump of a prepared document without references or inheritance gives back the document"""
    def body(s):
        d = doc(definitions={'M': {'type': 'object', 'properties': {'a': {'type': 'string', 'default': ''}}}})
        app = app_of(s, d)
        o = s.call(s.attr(app, 'dump'))
        s.check(o.ok, 'dump', lambda: '%r' % (o,), o.site)
        got = plain(s, o.value)
        s.check(same_plain(s, got['definitions'], d['definitions']), 'dump', lambda: 'dump %s' % (got,))
    run.explore('dump of an application', body)
