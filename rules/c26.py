"""Loading and preparing.  Documents of both versions that are valid, that validation rejects, whose schema references form
circles and combinations thereof, with and without strict mode, through load/prepare, create and validate; every version text;
what the application reports afterwards; documents in which each preparation step needs the result of the one before."""
import json

from .common import *

LIST, PETS = 'http://h.com/api-docs', 'http://h.com/api-docs/pet'
# schemas of a document: (name, definitions, validation error, circle of schema references)
STR = {'type': 'string'}
BAD = {'type': 'object', 'required': ['a'], 'properties': {'a': {'type': 'string', 'readOnly': True}}}
RING = {'A': {'type': 'object', 'properties': {'b': {'$ref': '#/definitions/B'}}}, 'B': {'type': 'object', 'properties': {'a': {'$ref': '#/definitions/A'}}}}


def ref(n):
    return {'$ref': '#/definitions/' + n}


SCHEMAS = [
    ('plain', {'A': STR}, 0, 0),
    ('chain', {'A': ref('B'), 'B': ref('C'), 'C': STR}, 0, 0),
    ('diamond', {'A': {'allOf': [ref('B'), ref('C')]}, 'B': {'allOf': [ref('D')]}, 'C': {'allOf': [ref('D')]}, 'D': {'type': 'object', 'properties': {'x': STR}}}, 0, 0),
    ('read only not required', {'A': {'type': 'object', 'required': ['b'], 'properties': {'a': {'type': 'string', 'readOnly': True}, 'b': STR}}}, 0, 0),
    ('required not declared', {'A': {'type': 'object', 'required': ['z'], 'properties': {'b': STR}}}, 0, 0),
    ('read only required', {'A': BAD}, 1, 0),
    ('two read only required', {'A': BAD, 'B': {'type': 'object', 'required': ['p', 'q'], 'properties': {'p': {'type': 'string', 'readOnly': True}, 'q': {'type': 'string', 'readOnly': True}}}}, 3, 0),
    ('nested', {'A': {'type': 'array', 'items': {'type': 'object', 'properties': {'y': BAD}}}}, 1, 0),
    ('ring of two', RING, 0, 1),
    ('itself', {'A': {'type': 'array', 'items': ref('A')}}, 0, 1),
    ('itself by additionalProperties', {'A': {'type': 'object', 'additionalProperties': ref('A')}}, 0, 1),
    ('ring by allOf', {'A': {'allOf': [ref('B')]}, 'B': {'allOf': [ref('A')]}}, 0, 1),
    ('error and ring', dict(RING, C=BAD), 1, 1),
]


def load(s, d, **kw):
    return s.must(s.attr(s.get('pyswagger.core:App'), 'load'), URL, resolver=world(s, [(URL, d)]), **kw)


def check(run):
    strictness(run)
    rings(run)
    places(run)
    versions(run)
    reports(run)
    old(run)
    order(run)
    targets(run)


def strictness(run):
    """which documents strict mode rejects, and what is left without it"""
    for nm, defs, nerr, ring in SCHEMAS:
        def body(s, nm=nm, defs=defs, nerr=nerr, ring=ring):
            how = s.choice('through', 'prepare()', 'prepare(True)', 'prepare(strict=False)', 'create', 'create(strict=False)', 'validate()', 'validate(strict=False)')
            x = s.token('x') if not how.startswith('create') else 'summary'
            d = doc({'/a': {'get': {'operationId': 'o', 'summary': x, 'parameters': [{'name': 'p', 'in': 'query', 'type': 'string'}], 'responses': resp()}}}, definitions=defs)
            strict = 'False' not in how
            if how.startswith('create'):
                url = 'http://h.com/s.json'
                storage(s, [], [(url, json.dumps(d))])
                o = s.call(s.attr(s.get('pyswagger.core:App'), 'create'), url, **({} if strict else {'strict': False}))
                app = o.value
            else:
                app = load(s, d)
                if how.startswith('validate'):
                    o = s.meth(app, 'validate', **({} if strict else {'strict': False}))
                else:
                    o = s.meth(app, 'prepare', *([True] if how == 'prepare(True)' else []), **({} if strict else {'strict': False}))
            what = lambda: '%s of a document (%s): %r' % (how, nm, o)
            if strict and nerr:
                s.check(o.is_exc('ValidationError'), 'strict', lambda: what() + ', specified ValidationError', o.site)
                return
            if strict and ring and not how.startswith('validate'):
                s.check(o.is_exc('CycleDetectionError'), 'strict', lambda: what() + ', specified CycleDetectionError', o.site)
                return
            s.check(o.ok, 'accept', what, o.site)
            if how.startswith('validate'):
                s.check(s.len(o.value) == nerr, 'errors', lambda: '%s reports %s errors, specified %d' % (how, show(s.len(o.value)), nerr))
                return
            op = s.item(s.attr(app, 'op'), 'o')
            s.same_ob(s.attr(op, 'summary'), x, 'usable', 'operation')
            v = s.token('v')
            req, _ = s.items(s.must(op, p=v))
            o2 = s.meth(req, 'prepare')
            s.check(o2.ok, 'usable', lambda: 'a request of the application: %r' % (o2,), o2.site)
            s.same_ob(s.attr(req, 'url'), 'http://h.com/v1/a', 'usable', 'URL')
            for n in defs:
                o2 = s.meth(s.attr(app, 'm'), '__getitem__', n)
                s.check(o2.ok, 'usable', lambda: 'definition %s: %r' % (n, o2), o2.site)
                s.check(s.R(s.attr(o2.value, 'final')) is not None or '$ref' in defs[n] or ring, 'completed', lambda: 'definition %s has no combined view' % n)
        run.explore('document ' + nm, body)


def rings(run):
    """circles of parameters, responses and path items do not make strict mode raise"""
    def body(s):
        k = s.choice('kind', 'parameters', 'responses', 'paths')
        n = s.choice('steps', 1, 2, 3)
        names = ['n%d' % i for i in range(n)]
        p = {'parameters': '', 'responses': '', 'paths': '/'}[k]
        esc = {'': '', '/': '~1'}[p]
        ring = {p + x: {'$ref': '#/%s/%s%s' % (k, esc, names[(i + 1) % n])} for i, x in enumerate(names)}
        d = doc({'/a': {'get': {'operationId': 'o', 'responses': resp()}}})
        d.setdefault(k, {}).update(ring)
        app = load(s, d)
        o = s.meth(app, 'prepare', s.choice('strict', True, False))
        s.check(o.ok, 'accept', lambda: 'a circle of %s: %r' % (k, o), o.site)
        s.check(s.call(s.item(s.attr(app, 'op'), 'o')).ok, 'usable', 'the operation cannot be called')
    run.explore('circles of other references', body)


def places(run):
    """a validation error anywhere is an error of the document"""
    def body(s):
        at = s.choice('at', 'body', 'response', 'path item parameter', 'shared parameter', 'shared response', 'items', 'additionalProperties', 'allOf', 'property', 'default response')
        P = {'name': 'p', 'in': 'body', 'schema': BAD}
        R = {'description': 'd', 'schema': BAD}
        op = {'operationId': 'o', 'responses': resp()}
        it = {'get': op}
        d = doc({'/a': it}, definitions={})
        if at == 'body':
            op['parameters'] = [P]
        elif at == 'path item parameter':
            it['parameters'] = [P]
        elif at == 'response':
            op['responses'] = {'200': R}
        elif at == 'default response':
            op['responses'] = {'200': {'description': 'ok'}, 'default': R}
        elif at == 'shared parameter':
            d['parameters'] = {'p': P}
        elif at == 'shared response':
            d['responses'] = {'p': R}
        else:
            d['definitions']['A'] = {'items': {'type': 'array', 'items': BAD}, 'additionalProperties': {'type': 'object', 'additionalProperties': BAD}, 'allOf': {'allOf': [STR, BAD]},
                                     'property': {'type': 'object', 'properties': {'k': BAD}}}[at]
        app = load(s, d)
        strict = s.choice('strict', True, False)
        o = s.meth(app, 'prepare', strict)
        if strict:
            s.check(o.is_exc('ValidationError'), 'strict', lambda: 'an error at %s: %r, specified ValidationError' % (at, o), o.site)
        else:
            s.check(o.ok, 'accept', lambda: 'an error at %s without strict mode: %r' % (at, o), o.site)
    run.explore('errors at every place', body)


def versions(run):
    def body(s):
        key = s.choice('key', 'swagger', 'swaggerVersion')
        v = s.choice('version', '2.0', '1.2', '1.1', '1.0', '3.0', '2.1', '2', '', '2.0.0', 'any')
        if v == 'any':
            v = s.token('v')
        elif v in ('1.2', '2.0') and (v == '2.0') != (key == 'swagger'):
            raise Skip()
        d = {key: v, 'info': {'title': 't', 'version': 'x', 'description': 'd'}, 'paths': {}, 'apis': []}
        if key == 'swagger':
            del d['apis']
        o = s.call(s.attr(s.get('pyswagger.core:App'), 'load'), URL, resolver=world(s, [(URL, d)]))
        if v in ('1.2', '2.0'):
            s.check(o.ok, 'accept', lambda: 'version %s: %r' % (show(v), o), o.site)
            s.same_ob(s.attr(o.value, 'version'), v, 'version', 'version')
        else:
            s.check(o.is_exc('NotImplementedError'), 'version', lambda: 'version %s under %s: %r, specified NotImplementedError' % (show(v), key, o), o.site)
    run.explore('versions', body)

    def none(s):
        """a document without version is rejected, with whatever parser"""
        p = s.choice('parser', None, 'SchemaContext')
        o = s.call(s.attr(s.get('pyswagger.core:App'), 'load'), URL, resolver=world(s, [(URL, {'type': 'object', 'x': 1})]), **({'parser': s.get('pyswagger.spec.v2_0.parser:' + p)} if p else {}))
        if p == 'SchemaContext':
            s.check(not o.ok or s.R(s.attr(o.value, 'version')) == '2.0', 'version', lambda: '%r' % (o,))
        else:
            s.check(o.is_exc('NotImplementedError'), 'version', lambda: 'no version, parser %s: %r, specified NotImplementedError' % (p, o), o.site)
    run.explore('no version', none)


def reports(run):
    """what the application says about itself"""
    def body(s):
        schemes = s.choice('schemes', None, ['http'], ['https', 'ws'])
        u = s.cat(s.choice('location', 'http', 'https'), '://h.com/', name(s, 'f'), '.json')
        t = s.token('t')
        d = doc({}, info={'title': t, 'version': '1'})
        del d['schemes']
        if schemes:
            d['schemes'] = schemes
        r = world(s, [(u, d)])
        app = s.must(s.attr(s.get('pyswagger.core:App'), 'load'), u, resolver=r)
        for prepared in (False, True):
            if prepared:
                s.must(s.attr(app, 'prepare'))
            s.same_ob(s.attr(app, 'version'), '2.0', 'version', 'version')
            s.same_ob(s.attr(app, 'url'), u, 'url', 'url')
            s.same_ob(s.attr(s.attr(s.attr(app, 'raw'), 'info'), 'title'), t, 'raw', 'title of the raw document')
            root = s.R(s.attr(app, 'root'))
            if not prepared:
                s.check(root is None, 'root', lambda: 'an application that is not prepared has the root %s' % show(root))
            else:
                s.check(s.I.U(root) is s.I.U(s.R(s.attr(app, 'raw'))), 'root', 'the root of a 2.0 document is not the document')
            got = [s.item(s.attr(app, 'schemes'), i) for i in range(s.len(s.attr(app, 'schemes')))]
            want = schemes if schemes and prepared else [u.args[0].split(':')[0]]
            s.check(got == want, 'schemes', lambda: 'schemes are %s, specified %s' % (got, want))
        s.same_ob(s.item(s.item(s.must(s.attr(app, 'dump')), 'info'), 'title'), t, 'dump', 'title of the dump')
    run.explore('reports', body)


def old12(s, res=None, **kw):
    """a 1.2 document of one resource"""
    op = {'method': 'GET', 'nickname': 'o', 'type': 'void', 'parameters': [], 'summary': s.token('sum')}
    op.update(kw.pop('op', {}))
    r = {'swaggerVersion': '1.2', 'apiVersion': '1', 'basePath': 'http://h.com/api', 'resourcePath': '/pet', 'apis': [{'path': '/a', 'operations': [op]}], 'models': {}}
    r.update(res or {})
    return [(LIST, dict({'swaggerVersion': '1.2', 'apiVersion': '1', 'apis': [{'path': '/pet'}]}, **kw)), (PETS, r)], op


M12 = {'A': {'id': 'A', 'properties': {'x': {'type': 'string'}}}}
R12 = {'A': {'id': 'A', 'properties': {'b': {'$ref': 'B'}}}, 'B': {'id': 'B', 'properties': {'a': {'$ref': 'A'}}}}
OLD = [('plain', {'models': M12}, {}, 0, 0),
       ('body name', {}, {'parameters': [{'paramType': 'body', 'name': 'zz', 'type': 'string'}]}, 1, 0),
       ('uniqueItems', {}, {'parameters': [{'paramType': 'query', 'name': 'p', 'type': 'string', 'uniqueItems': True}]}, 1, 0),
       ('two errors', {'models': {'A': {'properties': {'x': {'type': 'string', 'uniqueItems': False}}, 'id': 'A'}}}, {'parameters': [{'paramType': 'body', 'name': 'zz', 'type': 'string'}]}, 2, 0),
       ('ring', {'models': R12}, {}, 0, 1),
       ('error and ring', {'models': R12}, {'parameters': [{'paramType': 'body', 'name': 'zz', 'type': 'string'}]}, 1, 1)]


def old(run):
    for nm, res, op, nerr, ring in OLD:
        def body(s, nm=nm, res=res, op=op, nerr=nerr, ring=ring):
            docs, o_ = old12(s, res, op=op)
            app = s.must(s.attr(s.get('pyswagger.core:App'), 'load'), LIST, resolver=world(s, docs))
            s.same_ob(s.attr(app, 'version'), '1.2', 'version', 'version')
            raw = s.R(s.attr(app, 'raw'))
            s.check(s.I.isinstance_(raw, s.get('pyswagger.spec.v1_2.objects:ResourceList')), 'raw', lambda: 'the raw document is %s' % show(raw))
            strict = s.choice('strict', True, False)
            o = s.meth(app, 'prepare', strict)
            what = lambda: 'a 1.2 document (%s): %r' % (nm, o)
            if strict and nerr:
                s.check(o.is_exc('ValidationError'), 'strict', lambda: what() + ', specified ValidationError', o.site)
                return
            if strict and ring:
                s.check(o.is_exc('CycleDetectionError'), 'strict', lambda: what() + ', specified CycleDetectionError', o.site)
                return
            s.check(o.ok, 'accept', what, o.site)
            s.check(s.len(s.must(s.attr(app, 'validate'), False)) == nerr, 'errors', 'validate reports another number of errors')
            s.check(s.I.isinstance_(s.R(s.attr(app, 'root')), s.get('pyswagger.spec.v2_0.objects:Swagger')), 'root', 'the root is not a 2.0 document')
            s.check(s.I.U(s.R(s.attr(app, 'raw'))) is s.I.U(raw), 'raw', 'preparing replaces the raw document')
            s.same_ob(s.attr(app, 'version'), '1.2', 'version', 'version')
            s.same_ob(s.attr(app, 'url'), LIST, 'url', 'url')
            got = [s.item(s.attr(app, 'schemes'), i) for i in range(s.len(s.attr(app, 'schemes')))]
            s.check(sorted(got) == ['http', 'https'], 'schemes', lambda: 'schemes of a 1.2 document are %s' % got)
            s.same_ob(s.attr(s.item(s.attr(app, 'op'), ('pet', 'o')), 'summary'), o_['summary'], 'usable', 'operation')
            for n in res.get('models', {}):
                s.check(s.meth(s.attr(app, 'm'), '__getitem__', ('pet', n)).ok, 'usable', 'model %s is missing' % n)
        run.explore('1.2 document ' + nm, body)


def order(run):
    """every step works on the result of the steps before"""
    def body(s):
        x, y = s.token('x'), s.token('y')
        # normalise before resolve, merge before inheriting parameters, upgrade before all, resolve before aggregate
        d = doc({'/a': {'$ref': 'sub/other.json#/item'}}, definitions={'U': {'allOf': [{'$ref': 'sub/other.json#/M'}, {'type': 'object', 'properties': {'own': {'type': 'string'}}}]}})
        other = {'item': {'parameters': [{'$ref': '#/prm'}], 'get': {'operationId': 'o', 'responses': {'200': {'$ref': '#/rsp'}}}},
                 'prm': {'name': 'p', 'in': 'query', 'type': 'array', 'items': {'type': 'string'}, 'description': x}, 'rsp': {'description': 'd', 'schema': {'$ref': 'deep.json#/S'}},
                 'M': {'type': 'object', 'properties': {'m': {'$ref': '#/N'}}}, 'N': {'type': 'string', 'description': y}}
        app = app_in(s, [(URL, d), ('http://h.com/sub/other.json', other), ('http://h.com/sub/deep.json', {'S': {'type': 'string', 'description': y}})])
        op = op_of(s, app, 'o')
        p = s.attr(s.item(s.attr(op, 'parameters'), 0), 'final')
        s.same_ob(s.attr(p, 'description'), x, 'order', 'parameter by reference in a path item by reference')
        req, _ = s.items(s.must(op, p=s.list('1', '2')))
        q = s.items(s.attr(req, 'query'))
        s.same_ob(s.item(q[0], 1), '1,2', 'order', 'query of the request')
        r = s.attr(s.item(s.attr(op, 'responses'), '200'), 'final')
        sch = s.attr(r, 'schema')
        s.same_ob(s.attr(s.attr(sch, 'ref_obj'), 'description'), y, 'order', 'schema of the response')
        f = s.attr(schema_of(s, app, 'U'), 'final')
        props = s.attr(f, 'properties')
        s.check(s.len(props) == 2, 'order', lambda: 'the combined schema has the properties %s' % show(props))
        m = s.item(props, 'm')
        s.same_ob(s.attr(s.attr(m, 'ref_obj'), 'description'), y, 'order', 'property given by reference')
    run.explore('order of the steps', body)

    def first(s):
        """validation reports before the steps after it can fail"""
        what = s.choice('also', 'duplicate operationId', 'circle', 'parameter of another kind', 'dangling parameter', 'dangling response', 'dangling path item')
        op = {'operationId': 'o', 'responses': resp()}
        d = doc({'/a': {'get': op}}, definitions={'Bad': BAD})
        if what == 'duplicate operationId':
            d['paths']['/a']['put'] = dict(op)
        elif what == 'circle':
            d['definitions'].update(RING)
        elif what == 'parameter of another kind':
            op['parameters'] = [{'$ref': '#/definitions/Bad'}]
        elif what == 'dangling parameter':
            op['parameters'] = [{'$ref': '#/parameters/none'}]
        elif what == 'dangling response':
            op['responses'] = {'200': {'$ref': '#/responses/none'}}
        else:
            d['paths']['/b'] = {'$ref': '#/paths/~1none'}
        app = load(s, d)
        o = s.meth(app, 'prepare')
        s.check(o.is_exc('ValidationError'), 'first', lambda: 'an invalid document with another defect (%s): %r, specified ValidationError' % (what, o), o.site)
    run.explore('validation before the steps after it', first)


def targets(run):
    """references that cannot be followed make preparing fail in either mode"""
    def body(s):
        r = s.choice('reference', '#/definitions/Z', 'none.json', '#/parameters/p', '#/nothing/x')
        d = doc({}, definitions={'A': {'type': 'object', 'properties': {'x': {'$ref': r}}}}, parameters={'p': {'name': 'p', 'in': 'query', 'type': 'string'}})
        app = load(s, d)
        o = s.meth(app, 'prepare', s.choice('strict', True, False))
        s.check(not o.ok, 'dangling', lambda: 'a reference to %s: %r, specified an error' % (r, o))
        if r == '#/parameters/p':
            s.check(o.is_exc('TypeError'), 'kind', lambda: 'a reference to a parameter in place of a schema: %r, specified TypeError' % (o,), o.site)
    run.explore('dangling references', body)
