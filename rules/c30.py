"""Validation.  A 1.2 document with every kind of object is loaded with each required field of each object left out, with every
combination of the fields that rules relate to each other (types, references, items, uniqueItems; location, allowMultiple,
type and name of parameters; authorizations), and with several defects at once; the errors reported have to be exactly those that
the rules of the specification give for the object and its location.  2.0 documents with read-only properties at every place."""
import copy

from .common import *

LIST = 'http://h.com/api-docs'


def valid():
    """a valid document with every kind of object: (resource list, api declaration)"""
    rl = {'swaggerVersion': '1.2', 'apiVersion': '1', 'apis': [{'path': '/pet'}], 'info': {'title': 't', 'description': 'd'},
          'authorizations': {'basic': {'type': 'basicAuth'}, 'key': {'type': 'apiKey', 'passAs': 'header', 'keyname': 'k'},
                             'oauth': {'type': 'oauth2', 'scopes': [{'scope': 'a', 'description': 'b'}, {'scope': 'c'}],
                                       'grantTypes': {'implicit': {'loginEndpoint': {'url': 'u'}, 'tokenName': 't'},
                                                      'authorization_code': {'tokenRequestEndpoint': {'url': 'u'}, 'tokenEndpoint': {'url': 'u'}}}}}}
    op = {'method': 'GET', 'nickname': 'o', 'type': 'array', 'items': {'$ref': 'M'}, 'authorizations': {'oauth': [{'scope': 'a'}], 'basic': [], 'key': []},
          'parameters': [{'paramType': 'query', 'name': 'q', 'type': 'array', 'items': {'type': 'string'}, 'uniqueItems': True}, {'paramType': 'header', 'name': 'h', 'type': 'integer', 'allowMultiple': True},
                         {'paramType': 'path', 'name': 'p', 'type': 'string'}],
          'responseMessages': [{'code': 400, 'message': 'bad'}]}
    post = {'method': 'POST', 'nickname': 'p', 'type': 'void', 'consumes': ['multipart/form-data'], 'parameters': [{'paramType': 'form', 'name': 'f', 'type': 'File'}]}
    put = {'method': 'PUT', 'nickname': 'b', 'type': 'M', 'parameters': [{'paramType': 'body', 'name': 'body', '$ref': 'M'}]}
    res = {'swaggerVersion': '1.2', 'apiVersion': '1', 'basePath': 'http://h.com/api', 'resourcePath': '/pet',
           'apis': [{'path': '/a/{p}', 'operations': [op, post]}, {'path': '/b', 'operations': [put]}],
           'models': {'M': {'id': 'M', 'properties': {'x': {'type': 'string'}, 'y': {'$ref': 'M'}, 'z': {'type': 'array', 'items': {'type': 'integer', 'format': 'int32'}}}}}}
    return rl, res


def errors(s, rl, res, strict=False):
    o = s.call(s.attr(s.get('pyswagger.core:App'), 'load'), LIST, resolver=world(s, [(LIST, rl), (LIST + '/pet', res)]))
    s.check(o.ok, 'load', lambda: 'loading a 1.2 document: %r' % (o,), o.site)
    app = o.value
    v = s.meth(app, 'validate', strict=False)
    s.check(v.ok, 'report', lambda: 'validation: %r' % (v,), v.site)
    out = []
    for e in s.items(v.value):
        w, msg = s.items(e)
        p, k = s.items(w)
        out.append((s.R(p), s.R(k), s.R(msg)))
    t = s.meth(app, 'validate')
    if out:
        s.check(t.is_exc('ValidationError'), 'strict', lambda: 'strict validation of a document with errors: %r, specified ValidationError' % (t,), t.site)
    else:
        s.check(t.ok and not s.items(t.value), 'strict', lambda: 'strict validation of a document without errors: %r' % (t,), t.site)
    return out


def exactly(s, got, want, what, rule='errors'):
    """want: (location, kind, part of the message)"""
    left = list(got)
    for p, k, m in want:
        e = [x for x in left if x[1] == k and (p is None or s.same(x[0], p)) and (not isinstance(x[2], str) or m.lower() in x[2].lower())]
        s.check(e, rule, lambda: '%s: no error about %s of the %s at %s; reported are %s' % (what, m, k, p, show(tuple(got))))
        left.remove(e[0])
    s.check(not left, rule, lambda: '%s: reported without reason: %s' % (what, show(tuple(left))))


def follow(d, path):
    for t in path:
        d = d[t]
    return d


A, P = 'authorizations', '#/apis/pet/apis/'
# (document: 0 resource list / 1 declaration, path, location, kind, required fields)
REQUIRED = [
    (0, ('info',), '#/info', 'Info', 'title description'),
    (0, (A, 'basic'), '#/authorizations/basic', 'Authorization', 'type'),
    (0, (A, 'oauth', 'scopes', 0), '#/authorizations/oauth/scopes/0', 'Scope', 'scope'),
    (0, (A, 'oauth', 'scopes', 1), '#/authorizations/oauth/scopes/1', 'Scope', 'scope'),
    (0, (A, 'oauth', 'grantTypes', 'implicit'), '#/authorizations/oauth/grantTypes/implicit', 'Implicit', 'loginEndpoint'),
    (0, (A, 'oauth', 'grantTypes', 'implicit', 'loginEndpoint'), '#/authorizations/oauth/grantTypes/implicit/loginEndpoint', 'LoginEndpoint', 'url'),
    (0, (A, 'oauth', 'grantTypes', 'authorization_code'), '#/authorizations/oauth/grantTypes/authorization_code', 'AuthorizationCode', 'tokenRequestEndpoint tokenEndpoint'),
    (0, (A, 'oauth', 'grantTypes', 'authorization_code', 'tokenRequestEndpoint'), '#/authorizations/oauth/grantTypes/authorization_code/tokenRequestEndpoint', 'TokenRequestEndpoint', 'url'),
    (0, (A, 'oauth', 'grantTypes', 'authorization_code', 'tokenEndpoint'), '#/authorizations/oauth/grantTypes/authorization_code/tokenEndpoint', 'TokenEndpoint', 'url'),
    (1, (), '#/apis/pet', 'Resource', 'swaggerVersion basePath'),
    (1, ('apis', 0, 'operations', 0), P + 'o', 'Operation', 'method'),
    (1, ('apis', 0, 'operations', 1), P + 'p', 'Operation', 'method'),
    (1, ('apis', 1, 'operations', 0), P + 'b', 'Operation', 'method'),
    (1, ('apis', 0, 'operations', 0), None, 'Operation', 'nickname'),
    (1, ('apis', 1), P + 'b', 'Operation', 'path'),
    (1, ('apis', 0, 'operations', 0, 'authorizations', 'oauth', 0), P + 'o/authorizations/oauth/0', 'Authorizations', 'scope'),
    (1, ('apis', 0, 'operations', 0, 'responseMessages', 0), P + 'o/responseMessages/0', 'ResponseMessage', 'code message'),
    (1, ('apis', 0, 'operations', 0, 'parameters', 0), P + 'o/parameters/0', 'Parameter', 'paramType name'),
    (1, ('apis', 0, 'operations', 0, 'parameters', 2), P + 'o/parameters/2', 'Parameter', 'paramType name'),
    (1, ('models', 'M'), '#/apis/pet/models/M', 'Model', 'id'),
]
TYPED = [(('apis', 0, 'operations', 0), P + 'o', 'Operation'), (('apis', 0, 'operations', 1), P + 'p', 'Operation'), (('apis', 1, 'operations', 0, 'parameters', 0), P + 'b/parameters/0', 'Parameter'),
         (('apis', 0, 'operations', 0, 'parameters', 2), P + 'o/parameters/2', 'Parameter'), (('models', 'M', 'properties', 'x'), '#/apis/pet/models/M/properties/x', 'Property'),
         (('models', 'M', 'properties', 'y'), '#/apis/pet/models/M/properties/y', 'Property'), (('models', 'M', 'properties', 'z', 'items'), '#/apis/pet/models/M/properties/z/items', 'Items'),
         (('apis', 0, 'operations', 0, 'items'), P + 'o/items', 'Items'), (('apis', 0, 'operations', 0, 'parameters', 0, 'items'), P + 'o/parameters/0/items', 'Items')]


def defects():
    """(what, change of the documents, errors)"""
    out = []
    for i, path, loc, kind, fs in REQUIRED:
        for f in fs.split():
            def drop(docs, i=i, path=path, f=f):
                follow(docs[i], path).pop(f)
            out.append(('%s without %s' % (kind, f), drop, [(loc, kind, f)]))
            if f in ('path', 'nickname', 'code'):
                continue

            def null(docs, i=i, path=path, f=f):
                follow(docs[i], path)[f] = None
            out.append(('%s with %s null' % (kind, f), null, [(loc, kind, f)]))
    for path, loc, kind in TYPED:
        def drop(docs, path=path):
            x = follow(docs[1], path)
            for f in ('type', '$ref', 'items'):
                x.pop(f, None)
            if path[-1] == 'items':
                x['format'] = 'int32'    # an empty object would not be there at all
        out.append(('%s without type' % kind, drop, [(loc, kind, 'type')]))
    return out


def check(run):
    def fine(s):
        x = s.choice('document', 'full', 'minimal', 'no info', 'no authorizations', 'free text')
        rl, res = valid()
        if x == 'minimal':
            rl, res = {'swaggerVersion': '1.2', 'apis': [{'path': '/pet'}]}, {'swaggerVersion': '1.2', 'basePath': '/', 'apis': []}
        elif x == 'no info':
            del rl['info']
        elif x == 'no authorizations':
            del rl['authorizations']
            del res['apis'][0]['operations'][0]['authorizations']
        elif x == 'free text':
            rl['info'] = {'title': s.sym('title', 'str'), 'description': s.token('d')}
            res['models']['M']['properties']['x'] = {'type': 'string', 'description': s.token('e'), 'enum': [s.token('f')]}
            res['apis'][0]['operations'][0]['responseMessages'] = [{'code': s.sym('code', 'int'), 'message': s.sym('m', 'str')}]
            res['basePath'] = s.sym('base', 'str')
        exactly(s, errors(s, rl, res), [], 'a valid document (%s)' % x)
    run.explore('valid documents', fine)

    ds = defects()
    for n in range(0, len(ds), 8):
        def single(s, n=n):
            what, change, want = s.choice('defect', *ds[n:n + 8])
            docs = copy.deepcopy(valid())
            change(docs)
            exactly(s, errors(s, *docs), want, what)
        run.explore('single defects %d' % n, single)

    def several(s):
        """defects at different places are all reported"""
        some = [d for d in ds if 'null' not in d[0] and d[2][0][0] is not None]
        i = s.choice('defects', *range(len(some)))
        docs = copy.deepcopy(valid())
        want, locs, what = [], [], []
        for d in some[i:i + 1] + some[::3] + some[1::4]:
            loc = d[2][0][0]
            if any(l == loc or l.startswith(loc + '/') or loc.startswith(l + '/') for l in locs):
                continue
            d[1](docs)
            want += d[2]
            locs.append(loc)
            what.append(d[0])
        exactly(s, errors(s, *docs), want, 'a document with %d defects' % len(want))
    run.explore('several defects', several)

    datatypes(run)
    parameters(run)
    auths(run)
    new(run)
    missing(run)


def datatypes(run):
    """type, reference, items and uniqueItems"""
    for path, loc, kind in TYPED:
        if kind == 'Items':
            continue

        def body(s, path=path, loc=loc, kind=kind):
            t = s.choice('type', None, 'string', 'integer', 'array', 'M', 'void')
            r = s.choice('$ref', None, 'M')
            it = s.choice('items', None, {'type': 'string'}, {'$ref': 'M'}, {'type': 'void'})
            u = s.choice('uniqueItems', None, True, False)
            docs = valid()
            x = follow(docs[1], path)
            for f in ('type', '$ref', 'items', 'uniqueItems'):
                x.pop(f, None)
            for f, v in (('type', t), ('$ref', r), ('items', it), ('uniqueItems', u)):
                if v is not None:
                    x[f] = v
            want = []
            if t is None and r is None:
                want.append((loc, kind, 'type'))
            if (t == 'array') != (it is not None):
                want.append((loc, kind, 'items'))
            if u is not None and t != 'array':
                want.append((loc, kind, 'uniqueItems'))
            if t == 'void' and kind != 'Operation':
                want.append((loc, kind, 'void'))
            if it == {'type': 'void'}:
                want.append((loc + '/items', 'Items', 'void'))
            exactly(s, errors(s, *docs), want, '%s with type %s, $ref %s, items %s, uniqueItems %s' % (kind, t, r, it, u))
        run.explore('data types of %s' % loc.replace('#/apis/pet/', ''), body)


def parameters(run):
    def body(s):
        at = s.choice('paramType', 'query', 'path', 'header', 'form', 'body')
        m = s.choice('allowMultiple', None, True, False)
        t = s.choice('type', 'string', 'array', 'File', 'void')
        n = s.choice('name', '', 'body', 'other', 'Body', 'bod')
        if n in ('Body', 'bod') and (t != 'string' or m):
            raise Skip()
        docs = valid()
        op = docs[1]['apis'][0]['operations'][0]
        cons = s.choice('consumes', 'none', 'of the operation', 'of the declaration', 'others') if t == 'File' and m is None and n == 'other' else 'none'
        if cons == 'of the operation':
            op['consumes'] = ['a/b', 'multipart/form-data']
        elif cons == 'of the declaration':
            docs[1]['consumes'] = ['multipart/form-data']
        elif cons == 'others':
            op['consumes'] = ['application/x-www-form-urlencoded']
            docs[1]['consumes'] = ['multipart/form-data']
        p = {'paramType': at, 'name': n, 'type': t}
        if t == 'array':
            p['items'] = {'type': 'string'}
        if m is not None:
            p['allowMultiple'] = m
        op['parameters'] = [p, {'paramType': 'query', 'name': 'q', 'type': 'string'}]
        loc = P + 'o/parameters/0'
        want = []
        if m:
            if at in ('form', 'body'):
                want.append((loc, 'Parameter', 'allowMultiple should'))
            if t == 'array':
                want.append((loc, 'Parameter', 'with allowMultiple'))
        if at == 'body' and n not in ('', 'body'):
            want.append((loc, 'Parameter', 'name'))
        if t == 'File':
            if at != 'form':
                want.append((loc, 'Parameter', 'form type'))
            if cons in ('none', 'others'):
                want.append((loc, 'Parameter', 'multipart/form-data'))
        if t == 'void':
            want.append((loc, 'Parameter', 'void'))
        exactly(s, errors(s, *docs), want, 'a %s parameter %r of type %s, allowMultiple %s, consumes %s' % (at, n, t, m, cons))
    run.explore('parameters', body)


def auths(run):
    def schemes(s):
        k = s.choice('type', 'apiKey', 'oauth2', 'basicAuth', 'any')
        d = {'type': s.token('t') if k == 'any' else k}
        pa, kn = s.choice('passAs', None, '', 'header', 'query'), s.choice('keyname', None, '', 'k')
        g = s.choice('grantTypes', None, (), ('implicit',), ('authorization_code',), ('implicit', 'authorization_code')) if (pa, kn) == (None, None) else ('implicit',)
        for f, v in (('passAs', pa), ('keyname', kn)):
            if v is not None:
                d[f] = v
        G = {'implicit': {'loginEndpoint': {'url': 'u'}}, 'authorization_code': {'tokenRequestEndpoint': {'url': 'u'}, 'tokenEndpoint': {'url': 'u'}}}
        if g is not None:
            d['grantTypes'] = {x: G[x] for x in g}
        rl, res = valid()
        rl[A] = {'s': d}
        res['apis'][0]['operations'][0].pop(A)
        loc = '#/authorizations/s'
        want = []
        if k == 'apiKey':
            if not pa:
                want.append((loc, 'Authorization', 'passAs'))
            if not kn:
                want.append((loc, 'Authorization', 'keyname'))
        if k == 'oauth2' and g is None:
            want.append((loc, 'Authorization', 'grantTypes'))
        if g == ():
            want.append((loc + '/grantTypes', 'GrantType', 'implicit'))
        exactly(s, errors(s, rl, res), want, 'an authorization of type %s, passAs %s, keyname %s, grantTypes %s' % (k, pa, kn, g))
    run.explore('authorizations', schemes)

    def used(s):
        n = s.choice('name', 'basic', 'key', 'oauth', 'unknown')
        v = s.choice('scopes', [], [{'scope': 'a'}], [{'scope': 'a'}, {'scope': 'b'}], [{}])
        m = s.choice('second', None, 'unknown2')
        rl, res = valid()
        res['apis'][0]['operations'][0][A] = dict({n: v}, **({m: []} if m else {}))
        defined = s.choice('definitions', True, False)
        if not defined:
            rl.pop(A)
        want = []
        if n == 'unknown' or not defined:
            want.append((P + 'o', 'Operation', n))
        elif n in ('basic', 'key') and v:
            want.append((P + 'o', 'Operation', n))
        if m:
            want.append((P + 'o', 'Operation', m))
        if v == [{}]:
            want.append((P + 'o/authorizations/%s/0' % n, 'Authorizations', 'scope'))
        exactly(s, errors(s, rl, res), want, 'an operation with the authorization %s %s' % (n, v))
    run.explore('authorizations of operations', used)


BAD = {'type': 'object', 'required': ['a', 'c', 'z', 'e'], 'properties': {'a': {'type': 'string', 'readOnly': True}, 'b': {'type': 'string', 'readOnly': True}, 'c': {'type': 'string'}, 'e': {'type': 'string', 'readOnly': True}, 'f': {'type': 'string', 'readOnly': False}}}
GOOD = {'type': 'object', 'required': ['c'], 'properties': {'a': {'type': 'string', 'readOnly': True}, 'c': {'type': 'string'}}}


def new(run):
    """2.0 documents"""
    places = [(('definitions', 'A'), '#/definitions/A'), (('definitions', 'A', 'items'), '#/definitions/A/items'), (('definitions', 'A', 'additionalProperties'), '#/definitions/A/additionalProperties'),
              (('definitions', 'A', 'allOf', 1), '#/definitions/A/allOf/1'), (('definitions', 'A', 'properties', 'x/y'), '#/definitions/A/properties/x~1y'),
              (('definitions', 'A', 'properties', 'p', 'items', 'properties', 'q'), '#/definitions/A/properties/p/items/properties/q'),
              (('paths', '/a', 'get', 'parameters', 0, 'schema'), '#/paths/~1a/get/parameters/0/schema'), (('paths', '/a', 'parameters', 1, 'schema'), '#/paths/~1a/parameters/1/schema'),
              (('paths', '/a', 'get', 'responses', '200', 'schema'), '#/paths/~1a/get/responses/200/schema'), (('parameters', 'p', 'schema'), '#/parameters/p/schema'), (('responses', 'r', 'schema'), '#/responses/r/schema')]

    def put(d, path, v):
        for i, t in enumerate(path):
            if i == len(path) - 1:
                x = v
            else:
                x = [] if isinstance(path[i + 1], int) else {}
            if isinstance(d, list):
                while len(d) <= t:
                    d.append({'type': 'string'} if 'allOf' in path else {'name': 'n%d' % len(d), 'in': 'query', 'type': 'string'})
                if i == len(path) - 1:
                    d[t] = x
                elif path[i - 1] == 'parameters':
                    d[t] = {'name': 'b', 'in': 'body'}
                d = d[t]
            else:
                if t not in d or i == len(path) - 1:
                    d[t] = x
                d = d[t]

    def body(s):
        i = s.choice('places', *range(len(places)))
        n = s.choice('how many', 1, 2)
        d = doc({'/a': {'get': {'operationId': 'o', 'responses': {'200': {'description': 'x'}}}}}, definitions={}, parameters={'p': {'name': 'b', 'in': 'body'}}, responses={'r': {'description': 'r'}})
        at = [places[i], places[(i + 6) % len(places)]][:n]
        what = s.choice('what', 'bad', 'good')
        for path, loc in sorted(at, key=lambda x: len(x[0])):
            put(d, path, copy.deepcopy(BAD if what == 'bad' else GOOD))
        want = [(loc, 'Schema', ': ' + f) for _, loc in at for f in ('a', 'e')] if what == 'bad' else []
        app = app_of(s, d, prepare=False)
        v = s.meth(app, 'validate', strict=False)
        s.check(v.ok, 'report', lambda: 'validation: %r' % (v,), v.site)
        got = [(s.R(s.item(s.item(e, 0), 0)), s.R(s.item(s.item(e, 0), 1)), s.R(s.item(e, 1))) for e in s.items(v.value)]
        exactly(s, got, want, 'a 2.0 document with %s schemas at %s' % (what, [l for _, l in at]))
        t = s.meth(app, 'validate')
        s.check(t.is_exc('ValidationError') if want else t.ok, 'strict', lambda: 'strict validation: %r' % (t,), t.site)
    run.explore('2.0 documents', body)

    def any_(s):
        ns = [s.token('n%d' % i, nochars='+') for i in range(3)]
        ro = [s.choice('read only %d' % i, None, True, False) for i in range(2)]
        rq = [n for i, n in enumerate(ns) if s.choice('required %d' % i, True, False)]
        ps = {n: dict({'type': 'string'}, **({} if r is None else {'readOnly': r})) for n, r in zip(ns, ro)}
        app = app_of(s, doc(definitions={'A': dict({'type': 'object', 'properties': ps}, **({'required': rq} if rq else {}))}), prepare=False)
        got = s.items(s.must(s.attr(app, 'validate'), strict=False))
        want = [n for n, r in zip(ns, ro) if r and n in rq]
        s.check(len(got) == len(want), 'errors', lambda: 'required %s, read only %s: %s' % (show(rq), ro, show(got)))
    run.explore('2.0 properties', any_)


def missing(run):
    """required lists and maps"""
    def body(s):
        docs = valid()
        which = s.choice('field', 'parameters', 'properties', 'apis', 'operations')
        if which == 'parameters':
            docs[1]['apis'][0]['operations'][1].pop('parameters')
            want = (P + 'p', 'Operation', 'parameters')
        elif which == 'properties':
            docs[1]['models']['M'].pop('properties')
            want = ('#/apis/pet/models/M', 'Model', 'properties')
        elif which == 'apis':
            docs[1].pop('apis')
            want = ('#/apis/pet', 'Resource', 'apis')
        else:
            docs[1]['apis'][1].pop('operations')
            want = ('#/apis/pet', 'Resource', 'operations')
        got = errors(s, *docs)
        s.check(len(got) == 1 and got[0][1] == want[1] and want[2] in got[0][2], 'missing', lambda: 'a missing required list or map (%s) is not reported' % which)
    run.explore('missing lists and maps', body)
