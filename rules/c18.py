"""Fields.  The field tables of the Swagger 1.2 and 2.0 specifications (object kinds, fields, nested kinds, defaults) are the
oracle.  For every kind, at every place of a document that can hold it, documents are loaded with all fields given generic
values, each nested object in every container shape, unknown fields, no fields, and structurally wrong nested values; the
loaded objects have to return exactly what was given, objects of the nested kind linked to their parents, the defaults, or
an error."""
from .common import *

TYPE = 'type format default maximum exclusiveMaximum minimum exclusiveMinimum maxLength minLength pattern maxItems minItems uniqueItems enum multipleOf'
# kind: (fields with plain values, {field: (container, kind)}, {field: default other than absent})
V2 = {
    'Swagger': ('swagger host basePath schemes consumes produces security', {
        'info': (None, 'Info'), 'paths': ('dict', 'PathItem'), 'definitions': ('dict', 'Schema'), 'parameters': ('dict', 'Parameter'),
        'responses': ('dict', 'Response'), 'securityDefinitions': ('dict', 'SecurityScheme'), 'tags': ('list', 'Tag'),
        'externalDocs': (None, 'ExternalDocumentation')}, {}),
    'Info': ('title description termsOfService version', {'contact': (None, 'Contact'), 'license': (None, 'License')}, {}),
    'Contact': ('name url email', {}, {}),
    'License': ('name url', {}, {}),
    'PathItem': ('$ref', dict({m: (None, 'Operation') for m in 'get put post delete options head patch'.split()}, parameters=('list', 'Parameter')), {}),
    'Operation': ('tags summary description operationId consumes produces schemes deprecated security',
                  {'parameters': ('list', 'Parameter'), 'responses': ('dict', 'Response')}, {}),    # externalDocs: see below
    'ExternalDocumentation': ('description url', {}, {}),
    'Parameter': ('$ref name in description required allowEmptyValue collectionFormat ' + TYPE, {'schema': (None, 'Schema'), 'items': (None, 'Items')},
                  {'collectionFormat': 'csv'}),
    'Items': ('collectionFormat ' + TYPE, {'items': (None, 'Items')}, {'collectionFormat': 'csv'}),
    'Response': ('$ref description examples', {'schema': (None, 'Schema'), 'headers': ('dict', 'Header')}, {}),
    'Header': ('description collectionFormat ' + TYPE, {'items': (None, 'Items')}, {'collectionFormat': 'csv'}),
    'Tag': ('name description', {'externalDocs': (None, 'ExternalDocumentation')}, {}),
    'Schema': ('$ref title description maxProperties minProperties required discriminator readOnly example ' + TYPE, {
        'items': (None, 'Schema'), 'allOf': ('list', 'Schema'), 'properties': ('dict', 'Schema'), 'additionalProperties': (None, 'Schema'),
        'xml': (None, 'XMLObject'), 'externalDocs': (None, 'ExternalDocumentation')}, {'additionalProperties': True}),
    'XMLObject': ('name namespace prefix attribute wrapped', {}, {}),
    'SecurityScheme': ('type description name in flow authorizationUrl tokenUrl scopes', {}, {}),
}
DATA = 'type $ref format defaultValue enum minimum maximum uniqueItems'
ITEMS = {'items': (None, 'Items')}
V1 = {
    'ResourceList': ('swaggerVersion apiVersion', {'info': (None, 'Info'), 'authorizations': ('dict', 'Authorization')}, {}),
    'Info': ('title description termsOfServiceUrl contact license licenseUrl', {}, {}),
    'Authorization': ('type passAs keyname', {'scopes': ('list', 'Scope'), 'grantTypes': (None, 'GrantType')}, {}),
    'Scope': ('scope description', {}, {}),
    'GrantType': ('', {'implicit': (None, 'Implicit'), 'authorization_code': (None, 'AuthorizationCode')}, {}),
    'Implicit': ('tokenName', {'loginEndpoint': (None, 'LoginEndpoint')}, {}),
    'AuthorizationCode': ('', {'tokenRequestEndpoint': (None, 'TokenRequestEndpoint'), 'tokenEndpoint': (None, 'TokenEndpoint')}, {}),
    'LoginEndpoint': ('url', {}, {}),
    'TokenRequestEndpoint': ('url clientIdName clientSecretName', {}, {}),
    'TokenEndpoint': ('url tokenName', {}, {}),
    'Resource': ('swaggerVersion apiVersion basePath resourcePath produces consumes', {'models': ('dict', 'Model')}, {}),
    'Operation': ('method summary notes produces consumes deprecated ' + DATA,
                  dict(ITEMS, authorizations=('dict of list', 'Authorizations'), parameters=('list', 'Parameter'), responseMessages=('list', 'ResponseMessage')), {}),
    'Authorizations': ('scope description', {}, {}),
    'Parameter': ('paramType name description required allowMultiple ' + DATA, ITEMS, {}),
    'ResponseMessage': ('code message responseModel', {}, {}),
    'Model': ('id description required subTypes discriminator', {'properties': ('dict', 'Property')}, {}),
    'Property': ('description ' + DATA, ITEMS, {}),
    'Items': ('type $ref format', {}, {}),
}
LISTURL, RESURL = 'http://h.com/api-docs', 'http://h.com/api-docs/pet'


def places(table, root, start=()):
    """every place of a kind, one representative path through each parent kind and field (each kind entered once per field)"""
    out, seen = {}, set()
    todo = [(root, start)]
    while todo:
        k, path = todo.pop(0)
        out.setdefault(k, []).append(path)
        for f, (ct, sub) in table[k][1].items():
            if (k, f) in seen:
                continue
            seen.add((k, f))
            step = {None: (), 'list': (0,), 'dict': ('K',), 'dict of list': ('K', 0)}[ct]
            todo.append((sub, path + (f,) + step))
    return out


def put(root, path, v):
    cur = root
    for i, t in enumerate(path):
        if i == len(path) - 1:
            nxt = v
        else:
            nxt = [] if isinstance(path[i + 1], int) else {}
        if isinstance(cur, list):
            cur.append(nxt)
        elif t in cur and i < len(path) - 1:
            nxt = cur[t]
        else:
            cur[t] = nxt
        cur = nxt
    return root


def walk(s, o, path):
    for t in path:
        o = s.R(o)
        o = s.item(o, t) if isinstance(o, (HDict, HList)) or isinstance(t, int) else s.attr(o, t)
    return s.R(o)


class Version(object):
    def __init__(self, v):
        self.v, self.table = v, V2 if v == '2.0' else V1
        self.mod = 'pyswagger.spec.%s.objects:' % ('v2_0' if v == '2.0' else 'v1_2')
        if v == '2.0':
            self.places = places(V2, 'Swagger')
        else:
            self.places = places(V1, 'ResourceList')
            for root, start in (('Resource', ('apis', 'pet')),):
                for k, ps in places(V1, root, start).items():
                    self.places.setdefault(k, []).extend(ps)
            for k, ps in places(V1, 'Operation', ('apis', 'pet', 'apis', 'op1')).items():
                self.places.setdefault(k, []).extend(ps)

    def load(self, s, path, d):
        """Outcome of App.load with d at that path"""
        if self.v == '2.0':
            root = put({'swagger': '2.0'}, path, d) if path else {'swagger': '2.0', **d}
            docs = [(URL, root)]
        else:
            rl = {'swaggerVersion': '1.2', 'apis': [{'path': '/pet'}]}
            op = {'nickname': 'op1'}
            res = {'swaggerVersion': '1.2'}
            if path[:4] == ('apis', 'pet', 'apis', 'op1'):
                if len(path) == 4:
                    op.update(d)
                else:
                    put(op, path[4:], d)
            elif path[:2] == ('apis', 'pet'):
                if len(path) == 2:
                    res.update(d)
                else:
                    put(res, path[2:], d)
            elif path:
                put(rl, path, d)
            else:
                rl.update(d)
            res['apis'] = [{'path': '/a', 'operations': [op]}]
            docs = [(LISTURL, rl), (RESURL, res)]
        docs = [(u, s.obj(x)) for u, x in docs]
        getter = s.must('pyswagger.getter:DictGetter', s.list(*[u for u, _ in docs]), s.dict(*docs))
        return s.call(s.attr(s.get('pyswagger.core:App'), 'load'), docs[0][0], getter=getter)

    def get(self, s, app, path):
        return walk(s, s.attr(app, 'raw'), path)

    def klass(self, s, k):
        return s.get(self.mod + k)


ABSENT = (None, False)


def empty(s, v):
    v = s.R(v)
    return any(v is x for x in ABSENT) or isinstance(v, (HDict, HList)) and not s.items(v)


def check(run):
    for v in (Version('2.0'), Version('1.2')):
        for k in sorted(v.table):
            for path in v.places[k]:
                fields(run, v, k, path)
            wrong(run, v, k, v.places[k][0])

    def docs(s):
        u = s.token('u')
        v = Version('2.0')
        o = v.load(s, ('paths', '/a', s.choice('method', 'get', 'post')), {'externalDocs': {'url': u}})
        s.check(o.ok, 'load', lambda: '%r' % (o,), o.site)
        for m in ('get', 'post'):
            op = s.attr(s.item(s.attr(s.attr(o.value, 'raw'), 'paths'), '/a'), m)
            if s.R(op) is None:
                continue
            x = s.attr(op, 'externalDocs')
            s.check(s.I.isinstance_(x, v.klass(s, 'ExternalDocumentation')), 'nested', 'externalDocs of an operation is no ExternalDocumentation object')
            s.same_ob(s.attr(x, 'url'), u, 'nested', 'url of the external documentation')
    run.explore('external documentation of operations', docs)


def sub(v, kind, n):
    """a small object of that kind with a generic value"""
    fs = v.table[kind][0].split()
    return fs[0] if fs else None


def fields(run, v, k, path):
    plain_f, nested, defaults = v.table[k]
    plain_f = plain_f.split()
    fixed = {('2.0', 'Swagger'): ['swagger'], ('1.2', 'ResourceList'): ['swaggerVersion'], ('1.2', 'Operation'): []}.get((v.v, k), [])

    def common(s, o):
        s.check(o.ok, 'load', lambda: 'loading %s at %s: %r' % (k, '.'.join(map(str, path)), o), o.site)
        ob = v.get(s, o.value, path)
        s.check(s.I.isinstance_(ob, v.klass(s, k)), 'kind', lambda: '%s is no %s object' % ('.'.join(map(str, path)), k))
        return ob

    def given(s):
        vals = {f: s.sym('v_' + f) for f in plain_f if f not in fixed}
        d = dict(vals)
        if s.choice('unknown fields', False, True):
            d['x-other'] = s.sym('x')
            d[s.token('unknown')] = s.obj({'type': 'string', 'a': [1]})
            d['_private'] = s.sym('y')
        ob = common(s, v.load(s, path, d))
        for f in vals:
            s.same_ob(s.attr(ob, f), vals[f], 'value', 'field %s of %s' % (f, k))
        for f in nested:
            absent(s, ob, f)

    def absent(s, ob, f):
        x = s.attr(ob, f)
        if f in defaults:
            s.same_ob(x, defaults[f], 'default', 'field %s of %s, absent' % (f, k))
        else:
            s.check(empty(s, x), 'default', lambda: 'field %s of %s, absent, is %s' % (f, k, show(x)))

    def none(s):
        ob = common(s, v.load(s, path, {}))
        for f in plain_f:
            if f not in fixed and not (v.v == '1.2' and k == 'Resource' and f == 'swaggerVersion'):
                absent(s, ob, f)
        for f in nested:
            absent(s, ob, f)
        # changing a default value of one object does not show in another
        other = v.get(s, v.load(s, path, {}).value, path)
        for f in plain_f + list(nested):
            x = s.R(s.attr(ob, f))
            if isinstance(x, (HDict, HList)):
                s.check(x is not s.R(s.attr(other, f)), 'shared', lambda: 'field %s of two %s objects is the same %s' % (f, k, show(x)))

    where = '.'.join(map(str, path)) or 'document'
    run.explore('%s %s at %s, given' % (v.v, k, where), given)
    if (v.v, k) != ('1.2', 'Items'):    # an Items object without any field is not valid
        run.explore('%s %s at %s, absent' % (v.v, k, where), none)
    for f, (ct, kind) in nested.items():
        def nest(s, f=f, ct=ct, kind=kind):
            n = s.choice('elements', 0, 1, 2) if ct else 1
            lf = sub(v, kind, 0)
            full = (v.v, kind) == ('1.2', 'Items') or s.choice('element', 'empty', 'with a field') == 'with a field' if lf else False
            vals = [s.sym('v%d' % i) for i in range(n)]
            els = [{lf: x} if full else {} for x in vals]
            keys = [name(s, 'k%d' % i) for i in range(n)]
            d = {f: els[0] if not ct else els if ct == 'list' else dict(zip(keys, els)) if ct == 'dict' else {keys[0]: els} if keys else {}}
            ob = common(s, v.load(s, path, d))
            x = s.attr(ob, f)
            cls = v.klass(s, kind)
            if ct == 'dict of list':
                got = s.items(s.item(x, keys[0])) if keys else []
                s.check(len(s.items(x)) == min(1, n) and len(got) == n, 'container', lambda: 'field %s of %s has %d elements, given %d' % (f, k, len(got), n))
            elif ct:
                s.check(isinstance(s.R(x), HList if ct == 'list' else HDict), 'container', lambda: 'field %s of %s is %s' % (f, k, show(x)))
                s.check(len(s.items(x)) == n, 'container', lambda: 'field %s of %s has %d elements, given %d' % (f, k, len(s.items(x)), n))
                got = s.items(x) if ct == 'list' else [s.item(x, key) for key in keys]
            else:
                got = [x]
            for i, g in enumerate(got):
                s.check(s.I.isinstance_(g, cls), 'nested', lambda: 'field %s of %s: a nested value is %s, no %s object' % (f, k, show(g), kind))
                if full:
                    s.same_ob(s.attr(g, lf), vals[i], 'nested', 'field %s of %s in field %s of %s' % (lf, kind, f, k))
                if not (v.v == '1.2' and kind == 'Items'):
                    s.check(s.I.same(s.attr(g, '_parent_'), ob), 'parent', lambda: 'the parent of %s in field %s of %s is %s' % (kind, f, k, show(s.attr(g, '_parent_'))))
            for h in nested:
                if h != f:
                    absent(s, ob, h)
        run.explore('%s %s at %s, %s' % (v.v, k, where, f), nest)
    if v.v == '2.0' and k == 'Schema':
        def boolean(s):
            b = s.choice('additionalProperties', True, False)
            ob = common(s, v.load(s, path, {'additionalProperties': b}))
            s.same_ob(s.attr(ob, 'additionalProperties'), b, 'value', 'additionalProperties')
        run.explore('2.0 Schema at %s, boolean additionalProperties' % where, boolean)


def wrong(run, v, k, path):
    for f, (ct, kind) in v.table[k][1].items():
        def bad(s, f=f, ct=ct, kind=kind):
            shape = s.choice('value', 'text', 'number', 'list', 'bool', 'object', 'element')
            x = {'text': 'abc', 'number': 7, 'list': ['a'], 'bool': True, 'object': {'a': 'b'}, 'element': None}[shape]
            if shape == 'object' and not ct:
                raise Skip()
            if f == 'additionalProperties' and shape == 'bool':
                raise Skip()
            if shape == 'element':
                if not ct:
                    raise Skip()
                x = {'list': ['abc'], 'dict': {'k': 'abc'}, 'dict of list': {'k': ['abc']}}[ct]
            o = v.load(s, path, {f: x})
            s.check(not o.ok, 'wrong kind', lambda: 'field %s of %s given as %r is accepted' % (f, k, x))
        run.explore('%s %s, wrong %s' % (v.v, k, f), bad)
