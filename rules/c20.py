"""Merging.  Parameters, responses and path items given by reference, in one document or in another one, over one or two steps,
visited before or after their targets.  Every field of the three kinds (table of C18) given generically by the target, by a
middle step or by both; every element of a nested kind; what the merged object offers (and what calling the operation does) has
to be the field of the nearest object that sets it.  Targets, and other references to them, stay as they were; targets of
another kind raise TypeError; circles end."""
from .common import *
from .c18 import V2
from .c19 import same_plain

OTHER = 'http://h.com/other.json'
WHERE = {'Parameter': 'parameters', 'Response': 'responses', 'PathItem': 'paths'}
# fields held in lists or dicts: what happens when both sides set them is not specified
SKIP = ('$ref',)
METHODS = 'get put post delete options head patch'.split()


def value(s, kind, f, tag):
    """(document value, observed leaf path, leaf) of one field"""
    if f == 'schema' or f == 'items':
        x = s.token('f' + tag)
        return {'type': 'string', 'format': x}, (f, 'format'), x
    if f == 'headers':
        x = s.token('f' + tag)
        return {'X-A': {'type': 'string', 'description': x}}, (f, 'X-A', 'description'), x
    if f == 'examples':
        x = s.token('f' + tag)
        return {'application/json': x}, (f, 'application/json'), x
    if f == 'enum':
        x = s.token('f' + tag)
        return [x], (f, 0), x
    if f == 'parameters':
        x = s.token('f' + tag)
        return [{'name': x, 'in': 'query', 'type': 'string'}], (f, 0, 'name'), x
    if f in METHODS:
        x = s.token('f' + tag)
        return {'summary': x, 'responses': resp()}, (f, 'summary'), x
    x = s.sym('f' + tag, *{'required': ('bool',), 'allowEmptyValue': ('bool',), 'uniqueItems': ('bool',), 'exclusiveMaximum': ('bool',),
                           'exclusiveMinimum': ('bool',), 'maximum': ('int', 'float'), 'minimum': ('int', 'float'), 'multipleOf': ('int', 'float'),
                           'maxLength': ('int',), 'minLength': ('int',), 'maxItems': ('int',), 'minItems': ('int',),
                           'default': ('str', 'int', 'float', 'bool')}.get(f, ('str',)))
    return x, (f,), x


def base(s, kind, n):
    return {'Parameter': {'name': 'p', 'in': 'query', 'type': 'string'}, 'Response': {'description': 'd'}, 'PathItem': {}}[kind]


def ref(kind, where, n, here):
    return ('' if where == here else where.rsplit('/', 1)[1]) + '#/' + WHERE[kind] + '/' + {'PathItem': '~1' + n}.get(kind, n)


def docs_of(s, kind, steps, users, order):
    """documents: users is a list of objects at the places of use (keys u0, u1..); steps [(url, key, object)]"""
    root = doc({})
    oth = doc({})
    dd = {URL: root, OTHER: oth}

    def add(url, key, d, i=None):
        if kind == 'PathItem':
            dd[url]['paths']['/' + key] = d
        elif i is None:
            dd[url].setdefault(WHERE[kind], {})[key] = d
        else:
            o = {'operationId': 'op%d' % i, 'responses': resp()}
            if kind == 'Parameter':
                o['parameters'] = [d]
            else:
                o['responses'] = {'200': d}
            root['paths']['/o%d' % i] = {'get': o}
    parts = [lambda i=i, u=u: add(URL, 'u%d' % i, u, i) for i, u in enumerate(users)] + [lambda x=x: add(*x) for x in steps]
    if order:
        parts.reverse()
    for p in parts:
        p()
    return list(dd.items())


def user(s, kind, app, i):
    """the object at the place of use, as the library uses it"""
    root = s.attr(app, 'root')
    if kind == 'PathItem':
        return s.item(s.attr(root, 'paths'), '/u%d' % i)
    op = s.attr(s.item(s.attr(root, 'paths'), '/o%d' % i), 'get')
    x = s.item(s.attr(op, 'parameters'), 0) if kind == 'Parameter' else s.item(s.attr(op, 'responses'), '200')
    return s.must('pyswagger.utils:final', x)


def target(s, kind, app, url, key):
    x = s.must(s.attr(app, 'resolve'), url + '#/' + WHERE[kind] + '/' + {'PathItem': '~1' + key}.get(kind, key),
               s.get('pyswagger.spec.v2_0.parser:%sContext' % kind))
    return x


def observe(s, o, path):
    for t in path:
        o = s.R(o)
        o = s.item(o, t) if isinstance(s.I.U(o), (HDict, HList)) else s.attr(o, t)
    return o


def leaf(s, o, path, x, rule, what):
    v = s.I.U(s.R(o))
    for t in path:
        v = s.I.U(s.R(v))
        if isinstance(v, HList):
            s.check(len(s.items(v)) > t, rule, lambda: '%s is absent' % what)
        elif isinstance(v, HDict):
            s.check(s.truth(s.I.contains(v, t)), rule, lambda: '%s is absent' % what)
        else:
            s.check(v is not None, rule, lambda: '%s is absent' % what)
        v = observe(s, v, (t,))
    s.same_ob(v, x, rule, what)


def check(run):
    for kind in ('Parameter', 'Response', 'PathItem'):
        plain_f, nested, defaults = V2[kind]
        fs = [f for f in plain_f.split() + sorted(nested) if f not in SKIP]
        for f in fs:
            fields(run, kind, f)
        everything(run, kind, fs)
        circles(run, kind)
    other_kinds(run)
    behaviour(run)
    order_kept(run)


def fields(run, kind, f):
    def body(s):
        full = run.tier == 'thorough'       # the quick tier has the whole grid for all fields at once only
        where = s.choice('target in', URL, OTHER) if full else URL
        order = s.choice('order', 0, 1) if full else 0
        length = s.choice('steps', 1, 2) if full else 1
        setter = s.choice('set by', *(['last', 'user', 'both'] + (['middle', 'middle and last'] if length == 2 else [])))
        v, path, x = value(s, kind, f, '1')
        w, _, y = value(s, kind, f, '2')
        last = dict(base(s, kind, 0))
        last.pop(f, None)
        mid = {'$ref': ref(kind, where, 'T', where)}
        use = {'$ref': ref(kind, where, 'M' if length == 2 else 'T', URL)}
        second = {'$ref': use['$ref']}
        both_list = f in ('enum', 'parameters', 'headers', 'examples')
        near, far = x, None
        if setter == 'last':
            last[f] = v
        elif setter == 'user':
            use[f] = v
        elif setter == 'middle':
            mid[f] = v
        else:
            if both_list or f in ('default', 'allowEmptyValue', 'collectionFormat', 'required'):
                raise Skip()    # lists are combined; values equal to the default of the field do not count as set
            last[f] = w
            far = y
            if setter == 'both':
                use[f] = v
            else:
                mid[f] = v
        if not isinstance(v, (dict, list)):
            # a field set to its default counts as absent; the observed value is the same
            for d in V2[kind][2].get(f), None:
                if d is not None:
                    s.assume(not s.eq(x, d))
            if f in ('required', 'allowEmptyValue', 'default'):
                s.assume(s.truth(x))
        steps = [(where, 'T', last)] + ([(where, 'M', mid)] if length == 2 else [])
        docs = docs_of(s, kind, steps, [use, second], order)
        app = app_in(s, docs)
        got = user(s, kind, app, 0)
        leaf(s, got, path, near, 'merged', 'field %s of a %s given by reference' % (f, kind))
        s2 = user(s, kind, app, 1)
        if setter in ('last', 'middle', 'middle and last'):
            leaf(s, s2, path, near, 'merged', 'field %s of the second %s given by reference' % (f, kind))
        elif far is not None:
            leaf(s, s2, path, far, 'others', 'field %s of another %s that refers to the same target' % (f, kind))
        elif not both_list:
            z = s2
            for t in path[:-1]:
                z = s.R(z)
                z = None if z is None else s.item(z, t) if isinstance(s.I.U(z), (HDict, HList)) else s.attr(z, t)
            if s.R(z) is not None:
                z = s.R(observe(s, z, path[-1:]))
                s.check(not s.same(z, x), 'others', lambda: 'field %s, set beside one reference, shows on another reference to the same target' % f)
        t = target(s, kind, app, where, 'T')
        if f in last and not isinstance(last[f], (dict, list)):
            s.same_ob(s.attr(t, f), last[f], 'target', 'field %s of the target' % f)
        elif f in last:
            leaf(s, t, path, far if far is not None else near, 'target', 'field %s of the target' % f)
        else:
            z = s.R(s.attr(t, f))
            s.check(z is None or f in V2[kind][2] or z is False or isinstance(s.I.U(z), (HDict, HList)) and not s.items(z), 'target',
                    lambda: 'field %s of the target, which does not set it, became %s' % (f, show(z)))
    run.explore('%s, field %s' % (kind, f), body)


def everything(run, kind, fs):
    """all fields at once: nothing is lost, the nearest wins, and the targets stay as they were loaded"""
    def body(s):
        where = s.choice('target in', URL, OTHER)
        order = s.choice('order', 0, 1)
        length = s.choice('steps', 1, 2)
        setter = s.choice('set by', 'last', 'user', 'both', *(['middle', 'middle and last'] if length == 2 else []))
        lists = ('enum', 'parameters', 'headers', 'examples')

        def values(tag):
            vals = {f: value(s, kind, f, f + tag) for f in fs}
            for f, x in (('in', 'query'), ('type', 'string'), ('collectionFormat', 'ssv' if tag == '1' else 'tsv')):
                if f in vals:
                    vals[f] = (x, (f,), x)
            for f in ('required', 'allowEmptyValue', 'uniqueItems', 'exclusiveMaximum', 'exclusiveMinimum'):
                if f in vals:
                    vals[f] = (True, (f,), True)
            return vals
        v, w = values('1'), values('2')
        d = {f: x[0] for f, x in v.items()}
        use = {'$ref': ref(kind, where, 'M' if length == 2 else 'T', URL)}
        mid = {'$ref': ref(kind, where, 'T', where)}
        last = {}
        near = {'last': last, 'user': use, 'both': use}.get(setter, mid)
        near.update(d)
        if setter in ('both', 'middle and last'):
            last.update({f: x[0] for f, x in w.items() if f not in lists and f != 'default'})
            if kind == 'Parameter':
                near.pop('default')
        docs = docs_of(s, kind, [(where, 'T', last)] + ([(where, 'M', mid)] if length == 2 else []), [use, {'$ref': use['$ref']}], order)
        if kind == 'Parameter' and setter == 'user':
            del docs[0][1]['paths']['/o1']      # (a parameter that says nothing cannot be used)
        app = app_in(s, docs)
        got = user(s, kind, app, 0)
        for f, (_, path, x) in v.items():
            if f in near:
                leaf(s, got, path, x, 'merged', 'field %s of a %s given by reference' % (f, kind))
        t = target(s, kind, app, where, 'T')
        for f, (_, path, x) in (v if near is last else w).items():
            if f in last:
                leaf(s, t, path, x, 'target', 'field %s of the target' % f)
                if near is use:
                    leaf(s, user(s, kind, app, 1), path, x, 'others', 'field %s of another %s that refers to the same target' % (f, kind))
        for f, (ct, sub) in V2[kind][1].items():
            x = s.R(s.attr(got, f))
            u = s.I.U(x)
            els = s.items(x) if isinstance(u, HList) else [s.item(x, k) for k in s.items(x)] if isinstance(u, HDict) else [x]
            for e in els:
                s.check(s.I.isinstance_(e, s.get('pyswagger.spec.v2_0.objects:' + sub)), 'kind', lambda: 'field %s of a merged %s holds %s' % (f, kind, show(e)))
            if isinstance(u, HList) and f != 'parameters' or isinstance(u, HDict):
                s.check(len(els) == len(d[f]), 'merged', lambda: 'field %s has %d elements, the target %d' % (f, len(els), len(d[f])))
    run.explore('%s, all fields' % kind, body)


def circles(run, kind):
    def body(s):
        n = s.choice('length', 1, 2, 3)
        order = s.choice('order', 0, 1)
        outside = s.choice('enters from outside', True, False)
        where = s.choice('circle in', URL, OTHER)
        strict = s.choice('strict', True, False)
        keys = ['K%d' % i for i in range(n)]
        x = s.token('x')
        f = {'Parameter': 'description', 'Response': 'description', 'PathItem': 'get'}[kind]
        v = {'summary': x, 'responses': resp()} if kind == 'PathItem' else x
        steps = [(where, keys[i], {'$ref': ref(kind, where, keys[(i + 1) % n], where)}) for i in range(n)]
        steps[-1][2][f] = v
        users = [{'$ref': ref(kind, where, keys[0], URL)}] if outside else []
        if not outside and where == OTHER:
            raise Skip()
        if kind != 'PathItem' and not outside:
            raise Skip()
        app = s.must(s.attr(s.get('pyswagger.core:App'), 'load'), URL, resolver=world(s, docs_of(s, kind, steps, users, order)))
        o = s.meth(app, 'prepare', strict)
        s.check(o.ok, 'circle', lambda: 'preparing a document with a circle of %d references between %ss: %r' % (n, kind, o), o.site)
        got = user(s, kind, app, 0) if outside else target(s, kind, app, URL, 'K0')
        leaf(s, got, (f, 'summary') if kind == 'PathItem' else (f,), x, 'circle', 'field %s given within the circle' % f)
    run.explore('%s, circles' % kind, body)


def other_kinds(run):
    """a reference to an object of another kind"""
    def body(s):
        kind = s.choice('kind', 'Parameter', 'Response', 'PathItem', 'Schema')
        tgt = s.choice('target', *[k for k in ('Parameter', 'Response', 'PathItem', 'Schema', 'Operation') if k != kind])
        steps = s.choice('steps', 1, 2) if kind != 'Schema' else 1
        r = {'Parameter': '#/parameters/T', 'Response': '#/responses/T', 'PathItem': '#/paths/~1t', 'Schema': '#/definitions/T', 'Operation': '#/paths/~1t/get'}
        d = doc({'/t': {'get': {'responses': resp()}}}, parameters={'T': {'name': 'p', 'in': 'query', 'type': 'string'}},
                responses={'T': {'description': 'd'}}, definitions={'T': {'type': 'string'}})
        use = {'$ref': r[tgt]}
        if steps == 2:
            d[{'Parameter': 'parameters', 'Response': 'responses', 'PathItem': 'paths'}[kind]][{'PathItem': '/m'}.get(kind, 'M')] = use
            use = {'$ref': {'Parameter': '#/parameters/M', 'Response': '#/responses/M', 'PathItem': '#/paths/~1m'}[kind]}
        if kind == 'PathItem':
            d['paths']['/u'] = use
        elif kind == 'Schema':
            d['definitions']['U'] = use
        else:
            o = {'responses': {'200': use} if kind == 'Response' else resp()}
            if kind == 'Parameter':
                o['parameters'] = [use]
            d['paths']['/u'] = {'get': o}
        app = s.must(s.attr(s.get('pyswagger.core:App'), 'load'), URL, resolver=world(s, [(URL, d)]))
        o = s.meth(app, 'prepare')
        s.check(o.is_exc('TypeError'), 'kind', lambda: 'a %s given by reference to a %s: %r, specified TypeError' % (kind, tgt, o), o.site)
    run.explore('targets of another kind', body)

    def dangling(s):
        kind = s.choice('kind', 'Parameter', 'Response', 'PathItem', 'Schema')
        n = s.token('n', nochars=NAMEX)
        d = doc({}, parameters={'T': {'name': 'p', 'in': 'query', 'type': 'string'}}, responses={'T': {'description': 'd'}}, definitions={'T': {'type': 'string'}})
        use = {'$ref': s.cat(s.choice('document', '', 'other.json'), {'Parameter': '#/parameters/', 'Response': '#/responses/', 'PathItem': '#/paths/~1', 'Schema': '#/definitions/'}[kind], n)}
        if kind == 'PathItem':
            d['paths']['/u'] = use
        elif kind == 'Schema':
            d['definitions']['U'] = use
        else:
            o = {'responses': {'200': use} if kind == 'Response' else resp()}
            if kind == 'Parameter':
                o['parameters'] = [use]
            d['paths']['/u'] = {'get': o}
        app = s.must(s.attr(s.get('pyswagger.core:App'), 'load'), URL, resolver=world(s, [(URL, d), (OTHER, doc({}))]))
        o = s.meth(app, 'prepare')
        s.check(not o.ok, 'dangling', lambda: 'a %s refers to an object that does not exist: accepted' % kind)
    run.explore('references to nothing', dangling)


def behaviour(run):
    """operations of a path item given by reference work like those of the target"""
    def body(s):
        where = s.choice('target in', URL, OTHER)
        order = s.choice('order', 0, 1)
        m = s.choice('method', 'get', 'post', 'delete')
        pn, pw = s.choice('parameter', ('p', {'name': 'p', 'in': 'query', 'type': 'integer'}), ('p', {'$ref': '#/parameters/P'}))
        at = s.choice('declared at', 'operation', 'path item')
        rr = s.choice('response', {'description': 'ok', 'schema': {'type': 'integer'}}, {'$ref': '#/responses/R'})
        o = {'responses': {'200': rr}}
        item = {m: o}
        (o if at == 'operation' else item)['parameters'] = [pw]
        root, oth = doc({}, produces=['application/json']), doc({})
        tgt = root if where == URL else oth
        tgt['parameters'] = {'P': {'name': 'p', 'in': 'query', 'type': 'integer'}}
        tgt['responses'] = {'R': {'description': 'ok', 'schema': {'type': 'integer'}}}
        u = {'$ref': ref('PathItem', where, 't', URL)}
        if order and where == URL:
            tgt['paths']['/t'] = item
            root['paths']['/u'] = u
        else:
            root['paths']['/u'] = u
            tgt['paths']['/t'] = item
        app = app_in(s, [(URL, root), (OTHER, oth)])
        x = s.sym('x', 'int')
        for path in ('/u', '/t') if where == URL else ('/u',):
            op = s.attr(s.item(s.attr(s.attr(app, 'root'), 'paths'), path), m)
            s.check(s.R(op) is not None, 'merged', lambda: 'the path item has no operation')
            s.same_ob(s.attr(op, 'path'), path, 'own', 'path of the operation')
            s.same_ob(s.attr(op, 'method'), m, 'own', 'method of the operation')
            s.check(len(s.items(s.attr(op, 'parameters'))) == 1, 'merged', lambda: 'parameters: %s' % show(s.attr(op, 'parameters')))
            o2 = s.call(op, p=x)
            s.check(o2.ok, 'merged', lambda: 'calling %s: %r' % (path, o2), o2.site)
            req, rsp = s.items(o2.value)
            s.must(s.attr(req, 'prepare'))
            s.same_ob(s.attr(req, 'url'), 'http://h.com/v1' + path, 'own', 'URL of the request')
            q = [s.items(y) for y in s.items(s.attr(req, 'query'))]
            s.check(len(q) == 1 and s.same(q[0][0], 'p'), 'merged', lambda: 'query %s' % show(s.attr(req, 'query')))
            s.same_ob(q[0][1], s.builtin('str', x), 'merged', 'query parameter p')
            s.must(s.attr(rsp, 'apply_with'), status=200, raw='7')
            s.same_ob(s.attr(rsp, 'data'), 7, 'merged', 'response data')
    run.explore('operations of a path item given by reference', body)


def order_kept(run):
    def body(s):
        x, y = s.sym('x', 'int'), s.sym('y', 'int')
        s.assume(not s.eq(x, y))
        vals = s.choice('values', [x, y], [x, x])
        d = doc({'/a': {'get': {'operationId': 'op1', 'parameters': [{'$ref': '#/parameters/P'}], 'responses': resp()}}},
                parameters={'P': {'name': 'p', 'in': 'query', 'type': 'array', 'items': {'type': 'integer'}, 'default': vals}})
        app = app_in(s, [(URL, d)])
        p = s.must('pyswagger.utils:final', s.item(s.attr(op_of(s, app), 'parameters'), 0))
        got = s.items(s.attr(p, 'default'))
        s.check(len(got) == 2, 'lists', lambda: 'the default of a parameter given by reference lost equal elements')
        for a, b in zip(got, vals):
            s.same_ob(a, b, 'lists', 'element of the default of a parameter given by reference')
    run.explore('lists of values', body)
