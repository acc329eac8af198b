"""Upgrading from 1.2.  1.2 documents built from every field of the specification (information, resources, operations,
parameters, data types, models with inheritance, authorizations), their upgraded 2.0 counterparts compared field by field with
the equivalent that the two specifications give, references with the very definition they have to denote; constructs that
2.0 cannot express have to raise SchemaError."""
from .common import *

LIST = 'http://h.com/api-docs'
SEP = '!##!'


def rlist(*names, **kw):
    d = {'swaggerVersion': '1.2', 'apiVersion': '1', 'apis': [{'path': '/' + n if isinstance(n, str) else n} for n in names]}
    d.update(kw)
    return d


def decl(apis, base='http://h.com/api', **kw):
    d = {'swaggerVersion': '1.2', 'apiVersion': '1', 'basePath': base, 'apis': apis, 'models': {}}
    d.update(kw)
    return d


def op(nick, method='GET', **kw):
    d = {'method': method, 'nickname': nick, 'type': 'void', 'parameters': []}
    d.update(kw)
    return d


def docs_of(rl, **res):
    return [(LIST, rl)] + [(LIST + '/' + n, d) for n, d in res.items()]


def load(s, docs, **kw):
    o = s.call(s.attr(s.get('pyswagger.core:App'), 'load'), LIST, resolver=world(s, docs), **kw)
    if not o.ok:
        return o
    p = s.meth(o.value, 'prepare', False)
    return o if p.ok else p


def upgraded(s, docs, **kw):
    o = load(s, docs, **kw)
    s.check(o.ok, 'upgrade', lambda: 'loading a 1.2 document: %r' % (o,), o.site)
    return o.value


def one(s, o, **kw):
    """the upgraded app of one operation, and that operation"""
    app = upgraded(s, docs_of(rlist('pet'), pet=decl([{'path': '/a', 'operations': [o]}], **kw)))
    return app, s.attr(s.item(s.attr(s.attr(app, 'root'), 'paths'), '/api/a'), o['method'].lower())


def absent(s, x):
    x = s.R(x)
    return x is None or x is False or isinstance(x, (HDict, HList)) and not s.items(x)


def fields(s, o, want, what, rule='field', others=()):
    """each field of o as specified; a value of None stands for absent"""
    for f, v in want.items():
        x = s.attr(o, f)
        if v is None:
            s.check(absent(s, x), rule, lambda: '%s of %s is %s, specified absent' % (f, what, show(x)))
        elif isinstance(v, list):
            s.check(isinstance(s.R(x), HList) and s.len(x) == len(v) and all(s.same(a, b) for a, b in zip(s.items(x), v)), rule, lambda: '%s of %s is %s, specified %s' % (f, what, show(x), v))
        else:
            s.same_ob(x, v, rule, '%s of %s' % (f, what))


def check(run):
    info(run)
    operations(run)
    hosts(run)
    parameters(run)
    datatypes(run)
    models(run)
    auths(run)
    rejected(run)
    names(run)


def info(run):
    def body(s):
        v = s.token('version')
        F = {'title': 'title', 'description': 'description', 'termsOfServiceUrl': 'termsOfService'}
        which = s.choice('given', 'none', 'all', 'no info', 'contact', 'license', 'licenseUrl', 'title')
        vals = {f: s.token('v_' + f) for f in ('title', 'description', 'termsOfServiceUrl', 'contact', 'license', 'licenseUrl') if which in ('all', f)}
        rl = rlist(apiVersion=v)
        if which != 'no info':
            rl['info'] = vals
        app = upgraded(s, docs_of(rl))
        r = s.attr(app, 'root')
        i = s.attr(r, 'info')
        fields(s, r, {'swagger': '2.0', 'basePath': '', 'consumes': None, 'produces': None, 'security': None}, 'the document')
        fields(s, i, dict({g: vals.get(f) for f, g in F.items()}, version=v), 'the information')
        c, l = s.R(s.attr(i, 'contact')), s.R(s.attr(i, 'license'))
        if 'contact' in vals:
            fields(s, c, {'email': vals['contact']}, 'the contact')
        else:
            s.check(c is None, 'field', 'a contact appears')
        if 'license' in vals or 'licenseUrl' in vals:
            fields(s, l, {'name': vals.get('license'), 'url': vals.get('licenseUrl')}, 'the license')
        else:
            s.check(l is None, 'field', 'a license appears')
    run.explore('information', body)


METHODS = 'GET PUT POST DELETE OPTIONS HEAD PATCH'.split()


def operations(run):
    def body(s):
        x = {f: s.token(f) for f in ('summary', 'notes')}
        given = s.choice('given', True, False)
        dep = s.choice('deprecated', None, 'true', 'false')
        cons = s.choice('content types', 'operation', 'declaration', 'both', 'none')
        m = s.choice('method', *(METHODS if run.tier != 'quick' or (given, dep, cons) == (True, None, 'both') else METHODS[:1]))
        o = op('n1', s.choice('spelling', m, m.lower()))
        if given:
            o.update(x)
        if dep:
            o['deprecated'] = dep
        C, P, D, E_ = (s.token(n) for n in 'cpde')
        kw = {}
        if cons in ('operation', 'both'):
            o.update(consumes=[C], produces=[P, 'a/b'])
        if cons in ('declaration', 'both'):
            kw.update(consumes=[D], produces=[E_, 'c/d'])
        app, u = one(s, o, **kw)
        fields(s, u, {'tags': ['pet'], 'operationId': 'n1', 'summary': x['summary'] if given else None, 'description': x['notes'] if given else None, 'deprecated': dep == 'true',
                      'consumes': {'declaration': [D], 'none': None}.get(cons, [C]), 'produces': {'declaration': [E_, 'c/d'], 'none': None}.get(cons, [P, 'a/b']),
                      'parameters': None, 'security': None}, 'an operation')
        s.check([k for k in map(s.R, s.items(s.attr(u, 'responses')))] == ['default'], 'field', 'responses of an operation are not just default')
        s.check(s.R(s.attr(s.item(s.attr(u, 'responses'), 'default'), 'schema')) is None, 'field', 'an operation that returns void has a schema')
    run.explore('operations', body)

    def several(s):
        """every operation of every resource, none else"""
        b1 = s.choice('first base', 'http://h.com/api', 'http://h.com', '/api', '')
        b2 = s.choice('second base', 'same', 'http://h.com/other', 'http://h.com/ap')
        if b2 == 'same':
            b2 = b1
        elif not b1.startswith('http'):
            raise Skip()
        pre = {'http://h.com/api': '/api', 'http://h.com': '', '/api': '/api', '': '', 'http://h.com/other': '/other', 'http://h.com/ap': '/ap'}
        tail = s.choice('path ends with', '', '/') if b1 == b2 == 'http://h.com/api' else ''
        p = s.cat('/', name(s, 'p'), tail)
        n = [s.token('s%d' % i) for i in range(5)]
        pet = decl([{'path': '/a', 'operations': [op('n0', 'GET', summary=n[0]), op('n1', 'POST', summary=n[1])]}, {'path': '/a/{id}', 'operations': [op('n2', 'GET', summary=n[2])]}], b1)
        store = decl([{'path': p, 'operations': [op('n0', 'GET', summary=n[3])]}, {'path': '/a', 'operations': [op('n4', 'PUT', summary=n[4])]}], b2)
        third = s.choice('resource without operations', False, True)
        rl = rlist('pet', 'store', *(['void'] if third else []))
        app = upgraded(s, docs_of(rl, pet=pet, store=store, **({'void': decl([], b1)} if third else {})))
        r = s.attr(app, 'root')
        want = [(pre[b1] + '/a', 'get', 0, 'pet'), (pre[b1] + '/a', 'post', 1, 'pet'), (pre[b1] + '/a/{id}', 'get', 2, 'pet'), (s.cat(pre[b2], p), 'get', 3, 'store'), (pre[b2] + '/a', 'put', 4, 'store')]
        ps = s.attr(r, 'paths')
        s.check(s.len(ps) == (4 if pre[b1] != pre[b2] else 3), 'operations', lambda: 'the paths are %s' % show(ps))
        total = 0
        for k in s.items(ps):
            total += sum(s.R(s.attr(s.item(ps, k), m.lower())) is not None for m in METHODS)
        s.check(total == 5, 'operations', '%d operations, given 5' % total)
        for path, m, i, tag in want:
            it = s.item(ps, path)
            u = s.R(s.attr(it, m))
            s.check(u is not None, 'operations', lambda: 'no operation %s %s' % (m, show(path)))
            fields(s, u, {'summary': n[i], 'tags': [tag]}, 'operation %s %s' % (m, show(path)), 'operations')
        s.same_ob(s.attr(r, 'host'), 'h.com' if b1.startswith('http') else '', 'host', 'host')
        tags = [s.R(s.attr(t, 'name')) for t in s.items(s.attr(r, 'tags'))]
        s.check(sorted(tags) == sorted(['pet', 'store'] + (['void'] if third else [])), 'tags', lambda: 'tags are %s' % tags)
        for tag, nick, i in (('pet', 'n0', 0), ('store', 'n0', 3), ('store', 'n4', 4)):
            s.same_ob(s.attr(s.item(s.attr(app, 'op'), (tag, nick)), 'summary'), n[i], 'scoped', 'operation %s of %s' % (nick, tag))
        u = s.item(s.attr(app, 'op'), ('store', 'n0'))
        req, _ = s.items(s.must(u))
        o = s.meth(req, 'prepare')
        s.check(o.ok, 'url', lambda: '%r' % (o,), o.site)
        s.same_ob(s.attr(req, 'url'), s.cat('http://h.com' + pre[b2] if b1.startswith('http') else 'http://h.com' + pre[b2], p), 'url', 'URL of a request')
    run.explore('several resources', several)


def hosts(run):
    """operations of different hosts cannot be expressed"""
    def body(s):
        a, b, same = s.choice('bases', ('http://h.com/api', 'http://i.com/api', False), ('http://h.com:80/x', 'http://h.com:8080/x', False), ('http://h.com', 'http://h.com.org', False),
                              ('http://h.com/api', '/api', False), ('http://h.com/x', 'http://h.com/y', True), ('http://h.com/a', 'http://h.com/ab', True), ('http://h.com/x', 'https://h.com/y', False))
        pet, store = decl([{'path': '/a', 'operations': [op('n')]}], a), decl([{'path': '/a', 'operations': [op('n')]}], b)
        o = load(s, docs_of(rlist('pet', 'store'), pet=pet, store=store))
        if same:
            s.check(o.ok, 'hosts', lambda: 'resources of one host: %r' % (o,), o.site)
        else:
            s.check(o.is_exc('SchemaError'), 'hosts', lambda: 'resources under %s and %s: %r, specified SchemaError' % (a, b, o), o.site)
    run.explore('different hosts', body)


# (1.2 type, format) and the limits in every notation with the value they denote
TYPES = [('string', None), ('string', 'date'), ('string', 'date-time'), ('string', 'byte'), ('integer', 'int32'), ('integer', 'int64'), ('number', 'float'), ('number', 'double'), ('boolean', None)]
LIMITS = {'integer': [('0', 0), ('5', 5), ('5.0', 5), (5, 5), (0, 0), ('-3', -3), ('9007199254740993', 9007199254740993), (9007199254740993, 9007199254740993)],
          'number': [('0', 0.0), ('0.5', 0.5), (0.5, 0.5), (3, 3.0), ('1e3', 1000.0)]}


def limits(s, t, d, want):
    """add minimum and maximum"""
    if t not in LIMITS:
        return
    which = s.choice('limits', 'none', 'minimum', 'maximum', 'both', 'empty')
    if which == 'empty':
        d.update(minimum='', maximum='')
    v, w = s.choice('limit', *LIMITS[t]) if which in ('minimum', 'maximum') else (('1', 1) if t == 'integer' else ('1', 1.0))
    if which in ('minimum', 'both'):
        d['minimum'] = v
        want['minimum'] = w
    if which in ('maximum', 'both'):
        d['maximum'] = v if which == 'maximum' else '7'
        want['maximum'] = w if which == 'maximum' else 7


def parameters(run):
    for t, f in TYPES:
        def body(s, t=t, f=f):
            at = s.choice('location', 'query', 'path', 'header', 'form', 'body')
            multi = s.choice('allowMultiple', None, True, False) if at in ('query', 'path', 'header') else None
            d = {'paramType': at, 'name': 'p' if at != 'body' else 'body', 'type': t}
            inner = {'type': t, 'minimum': None, 'maximum': None, 'format': f, 'enum': None}
            if f:
                d['format'] = f
            vary = s.choice('vary', 'limits', 'more', 'required') if at in ('query', 'body') and run.tier == 'quick' else None
            if at in ('query', 'body') and vary in (None, 'limits'):
                limits(s, t, d, inner)
            more = s.choice('more', 'none', 'default', 'enum', 'both') if at in ('query', 'form') and vary in (None, 'more') else 'both'
            e = [s.token('e1'), s.token('e2')]
            df = s.token('default') if more in ('default', 'both') else None
            if df is not None:
                d['defaultValue'] = df
            if more in ('enum', 'both'):
                d['enum'] = e
                inner['enum'] = e
            req = s.choice('required', None, True, False) if vary in (None, 'required') else True
            if req is not None:
                d['required'] = req
            dd = s.token('desc')
            d['description'] = dd
            if multi is not None:
                d['allowMultiple'] = multi
            app, u = one(s, op('n', parameters=[d]))
            ps = s.items(s.attr(u, 'parameters'))
            s.check(len(ps) == 1, 'parameters', '%d parameters, given 1' % len(ps))
            p = ps[0]
            what = '%s parameter of type %s/%s' % (at, t, f)
            fields(s, p, {'in': {'form': 'formData'}.get(at, at), 'name': d['name'], 'required': req or None, 'description': dd}, what)
            if at == 'body':
                sch = s.R(s.attr(p, 'schema'))
                s.check(sch is not None, 'field', 'a body parameter has no schema')
                fields(s, sch, dict(inner, items=None, uniqueItems=None), what)
                if df is not None:
                    s.same_ob(s.attr(sch, 'default'), df, 'field', 'default of a ' + what)
                return
            s.check(s.R(s.attr(p, 'schema')) is None, 'field', 'a schema appears')
            if multi:
                fields(s, p, {'type': 'array', 'collectionFormat': 'csv', 'minimum': None, 'maximum': None, 'enum': None}, what + ' with allowMultiple')
                fields(s, s.attr(p, 'items'), inner, 'element of a ' + what)
                if df is not None:
                    x = s.attr(p, 'default')
                    s.check(s.len(x) == 1 and s.same(s.item(x, 0), df), 'field', lambda: 'the default of a %s with allowMultiple is %s' % (what, show(x)))
            else:
                fields(s, p, dict(inner, items=None), what)
                if df is not None:
                    s.same_ob(s.attr(p, 'default'), df, 'field', 'default of a ' + what)
            if df is None:
                s.check(s.R(s.attr(p, 'default')) is None, 'field', 'a default appears')
        run.explore('parameters of type %s %s' % (t, f or ''), body)

    def defaults(s):
        """defaults that are falsy are defaults"""
        at = s.choice('at', 'query', 'path', 'header', 'form', 'body', 'allowMultiple', 'property', 'array', 'result')
        v = s.choice('default', 0, False, '', 0.0, -1, 'false') if at != 'array' else s.choice('default', [], [0], [''])
        t = {int: 'integer', bool: 'boolean', str: 'string', float: 'number', list: 'array'}[type(v)]
        d = {'name': 'p' if at != 'body' else 'body', 'type': t, 'defaultValue': v}
        if t == 'array':
            d['items'] = {'type': 'string'}
        ms = dict(MODELS)
        o = op('n', 'POST')
        if at == 'property':
            d.pop('name')
            ms['Own'] = {'id': 'Own', 'properties': {'f': d}}
        elif at == 'result':
            d.pop('name')
            o.update(d)
        else:
            if at == 'allowMultiple':
                d['allowMultiple'] = True
            d['paramType'] = {'allowMultiple': 'query', 'array': 'query'}.get(at, at)
            o['parameters'] = [d]
        app, u = one(s, o, models=ms)
        if at == 'property':
            x = s.item(s.attr(s.item(s.attr(s.attr(app, 'root'), 'definitions'), 'pet' + SEP + 'Own'), 'properties'), 'f')
        elif at == 'result':
            x = s.attr(s.item(s.attr(u, 'responses'), 'default'), 'schema')
        else:
            x = s.item(s.attr(u, 'parameters'), 0)
            if at == 'body':
                x = s.attr(x, 'schema')
        got = s.R(s.attr(x, 'default'))
        want = [v] if at == 'allowMultiple' else v
        if isinstance(want, list):
            same = got is not None and s.len(got) == len(want) and all(s.same(s.item(got, i), w) for i, w in enumerate(want))
        else:
            same = type(got) is type(want) and got == want
        s.check(same, 'field', lambda: 'the default of a %s of type %s is %s, given %r' % (at, t, show(got), v))
    run.explore('falsy defaults', defaults)

    def arrays(s):
        at = s.choice('location', 'query', 'path', 'header', 'form')
        t, f = s.choice('element', *(TYPES if run.tier != 'quick' or at == 'query' else TYPES[1:5:3]))
        uniq = s.choice('uniqueItems', None, True, False)
        df = s.choice('default', None, [1, 2])
        it = {'type': t}
        if f:
            it['format'] = f
        d = {'paramType': at, 'name': 'p', 'type': 'array', 'items': it}
        if uniq is not None:
            d['uniqueItems'] = uniq
        if df is not None:
            d['defaultValue'] = df
        app, u = one(s, op('n', parameters=[d, {'paramType': 'query', 'name': 'q', 'type': 'string'}]))
        ps = {s.R(s.attr(p, 'name')): p for p in s.items(s.attr(u, 'parameters'))}
        s.check(set(ps) == {'p', 'q'}, 'parameters', lambda: 'parameters are %s' % list(ps))
        fields(s, ps['p'], {'type': 'array', 'collectionFormat': 'csv', 'in': {'form': 'formData'}.get(at, at), 'uniqueItems': uniq or None, 'default': df, 'minimum': None}, 'an array parameter')
        fields(s, s.attr(ps['p'], 'items'), {'type': t, 'format': f}, 'elements of an array parameter')
        fields(s, ps['q'], {'type': 'string', 'items': None, 'in': 'query'}, 'another parameter')
    run.explore('array parameters', arrays)

    def files(s):
        d = {'paramType': 'form', 'name': 'p', 'type': s.choice('type', 'File', 'file')}
        app, u = one(s, op('n', 'POST', parameters=[d], consumes=['multipart/form-data']))
        fields(s, s.item(s.attr(u, 'parameters'), 0), {'type': 'file', 'in': 'formData', 'name': 'p'}, 'a file parameter')
    run.explore('file parameters', files)

    def own(s):
        """each parameter goes to its own operation"""
        ns = [s.token('n%d' % i, nochars='+') for i in range(4)]
        P = lambda n: {'paramType': 'query', 'name': n, 'type': 'string'}
        d = decl([{'path': '/a', 'operations': [op('o0', parameters=[P(ns[0]), P(ns[1])]), op('o1', 'POST', parameters=[P(ns[2])])]}, {'path': '/b', 'operations': [op('o2', parameters=[P(ns[3])]), op('o3', 'PUT')]}])
        app = upgraded(s, docs_of(rlist('pet'), pet=d))
        for o, want in (('o0', ns[:2]), ('o1', ns[2:3]), ('o2', ns[3:]), ('o3', [])):
            got = [s.attr(p, 'name') for p in s.items(s.attr(s.item(s.attr(app, 'op'), o), 'parameters'))]
            s.check(len(got) == len(want) and all(any(s.same(g, w) for g in got) for w in want), 'parameters', lambda: 'parameters of operation %s are %s, specified %s' % (o, show(got), show(want)))
    run.explore('parameters of several operations', own)


MODELS = {'Pet': {'id': 'Pet', 'properties': {'a': {'type': 'string'}}}, 'Tag': {'id': 'Tag', 'properties': {}}}


def datatypes(run):
    """data types of return values, bodies and properties"""
    for where in ('operation', 'body', 'property'):
        for k in ('primitive', 'model', '$ref', 'array'):
            def body(s, where=where, k=k):
                d, want = {}, {'minimum': None, 'maximum': None, 'items': None, 'type': None, 'uniqueItems': None, 'enum': None, 'format': None}
                ref = item = None
                if k == 'primitive':
                    t, f = s.choice('type', *TYPES)
                    d['type'] = t
                    want['type'] = t
                    if f:
                        d['format'] = want['format'] = f
                    full = run.tier != 'quick' or f in ('int32', 'double')
                    if full:
                        limits(s, t, d, want)
                    if s.choice('enum', *((False, True) if run.tier != 'quick' or not full else (True,))):
                        d['enum'] = want['enum'] = [s.token('e')]
                elif k == 'model':
                    d['type'] = ref = s.choice('model', 'Pet', 'Tag')
                elif k == '$ref':
                    d['$ref'] = ref = s.choice('model', 'Pet', 'Tag')
                else:
                    d['type'] = want['type'] = 'array'
                    want.pop('items')
                    how = s.choice('element', '$ref', 'model', *TYPES)
                    it = {}
                    if how in ('$ref', 'model'):
                        it['$ref' if how == '$ref' else 'type'] = item = 'Pet'
                    else:
                        it['type'] = how[0]
                        if how[1]:
                            it['format'] = how[1]
                    d['items'] = it
                    u = s.choice('uniqueItems', None, True, False)
                    if u is not None:
                        d['uniqueItems'] = u
                        want['uniqueItems'] = u or None
                df = s.token('default') if s.choice('default', *((False, True) if run.tier != 'quick' or 'minimum' not in d and 'maximum' not in d else (True,))) else None
                if df is not None:
                    d['defaultValue'] = df
                dd = s.token('d')
                ms = dict(MODELS)
                o = op('n', 'POST')
                if where == 'operation':
                    o.pop('type')
                    o.update(d)
                elif where == 'body':
                    o['parameters'] = [dict(d, paramType='body', name='body')]
                else:
                    ms['Own'] = {'id': 'Own', 'properties': {'f': dict(d, description=dd)}}
                app, u = one(s, o, models=ms)
                defs = s.attr(s.attr(app, 'root'), 'definitions')
                if where == 'operation':
                    x = s.attr(s.item(s.attr(u, 'responses'), 'default'), 'schema')
                elif where == 'body':
                    x = s.attr(s.item(s.attr(u, 'parameters'), 0), 'schema')
                else:
                    x = s.item(s.attr(s.item(defs, 'pet' + SEP + 'Own'), 'properties'), 'f')
                    fields(s, x, {'description': dd}, 'a property')
                what = 'the %s of kind %s' % (where, k)
                s.check(s.R(x) is not None, 'field', lambda: '%s has no schema' % what)
                if ref:
                    s.check(s.same(s.attr(x, 'ref_obj'), s.item(defs, 'pet' + SEP + ref)), 'reference', lambda: '%s refers to %s, specified the definition of %s' % (what, show(s.attr(x, 'ref_obj')), ref))
                else:
                    s.check(absent(s, s.attr(x, '$ref')), 'reference', lambda: '%s refers to %s' % (what, show(s.attr(x, '$ref'))))
                fields(s, x, want, what)
                if df is not None:
                    s.same_ob(s.attr(x, 'default'), df, 'field', 'default of ' + what)
                else:
                    s.check(s.R(s.attr(x, 'default')) is None, 'field', 'a default appears')
                if k == 'array':
                    i = s.R(s.attr(x, 'items'))
                    s.check(i is not None, 'field', 'an array has no items')
                    if item:
                        s.check(s.same(s.attr(i, 'ref_obj'), s.item(defs, 'pet' + SEP + item)), 'reference', lambda: 'elements of %s refer to %s, specified the definition of %s' % (what, show(s.attr(i, 'ref_obj')), item))
                        fields(s, i, {'type': None}, 'elements of ' + what)
                    else:
                        fields(s, i, {'type': it['type'], 'format': it.get('format'), '$ref': None}, 'elements of ' + what)
            run.explore('data types of a %s, %s' % (where, k), body)


def models(run):
    def body(s):
        """definitions are scoped by their resource"""
        sep = s.choice('separator', None, '::')
        x = s.token('x')
        other = s.choice('other resource', True, False)
        kw = {}
        m = {'id': 'M', 'properties': {'a': {'type': 'string'}, 'b': {'$ref': 'N'}, 'c': {'type': 'array', 'items': {'$ref': 'M'}}}}
        given = s.choice('given', True, False)
        if given:
            m.update(required=['b', 'a'], discriminator='a', description=x)
        ms = {'M': m, 'N': {'id': 'N', 'properties': {'z': {'type': 'integer'}}, 'description': 'of pet'}}
        docs = docs_of(rlist(*(['pet', 'store'] if other else ['pet'])), pet=decl([], models=ms), **({'store': decl([], models={'N': {'id': 'N', 'properties': {'y': {'$ref': 'N'}}, 'description': 'of store'}})} if other else {}))
        app = upgraded(s, docs, **({'sep': sep} if sep else {}))
        S_ = sep or SEP
        defs = s.attr(s.attr(app, 'root'), 'definitions')
        s.check(sorted(s.items(defs)) == sorted(['pet' + S_ + 'M', 'pet' + S_ + 'N'] + (['store' + S_ + 'N'] if other else [])), 'definitions', lambda: 'definitions are %s' % show(defs))
        M, N = s.item(defs, 'pet' + S_ + 'M'), s.item(defs, 'pet' + S_ + 'N')
        fields(s, M, {'required': m.get('required'), 'discriminator': m.get('discriminator'), 'description': m.get('description'), 'allOf': None}, 'a model')
        fields(s, N, {'description': 'of pet', 'required': None}, 'a model')
        ps = s.attr(M, 'properties')
        s.check(sorted(s.items(ps)) == ['a', 'b', 'c'], 'field', lambda: 'properties of a model are %s' % show(ps))
        s.check(s.same(s.attr(s.item(ps, 'b'), 'ref_obj'), N), 'reference', 'a property refers to another definition')
        s.check(s.same(s.attr(s.attr(s.item(ps, 'c'), 'items'), 'ref_obj'), M), 'reference', 'elements of a property refer to another definition')
        if other:
            O = s.item(defs, 'store' + S_ + 'N')
            fields(s, O, {'description': 'of store'}, 'a model of another resource')
            s.check(s.same(s.attr(s.item(s.attr(O, 'properties'), 'y'), 'ref_obj'), O), 'reference', 'a property refers to a definition of another resource')
        s.check(s.same(s.item(s.attr(app, 'm'), ('pet', 'M')), M), 'scoped', 'App.m finds another definition')
    run.explore('models', body)

    def inherit(s):
        """subTypes: each child obeys each of its parents"""
        kind = s.choice('hierarchy', 'one', 'two children', 'chain', 'two parents', 'undeclared')
        order = s.choice('order', 1, -1)
        H = {'one': {'A': ['B'], 'B': []}, 'two children': {'A': ['B', 'C'], 'B': [], 'C': []}, 'chain': {'A': ['B'], 'B': ['C'], 'C': []},
             'two parents': {'A': ['C'], 'B': ['C'], 'C': []}, 'undeclared': {'A': ['Z']}}[kind]
        ms = {k: dict({'id': k, 'properties': {'p' + k: {'type': 'string'}}, 'required': ['p' + k], 'description': 'd' + k}, **({'subTypes': v} if v else {})) for k, v in list(H.items())[::order]}
        app = upgraded(s, docs_of(rlist('pet'), pet=decl([], models=ms)))
        defs = s.attr(s.attr(app, 'root'), 'definitions')
        s.check(s.len(defs) == len(H) + (kind == 'undeclared'), 'definitions', lambda: 'definitions are %s' % show(defs))
        for k in list(H) + (['Z'] if kind == 'undeclared' else []):
            d = s.item(defs, 'pet' + SEP + k)
            want = [s.item(defs, 'pet' + SEP + a) for a, v in H.items() if k in v]
            got = [s.attr(x, 'ref_obj') for x in s.items(s.attr(d, 'allOf'))]
            s.check(len(got) == len(want) and all(any(s.same(g, w) for g in got) for w in want), 'inherit', lambda: 'definition %s extends %s, specified %s' % (k, show(got), show(want)))
            if k in H:
                fields(s, d, {'required': ['p' + k], 'description': 'd' + k}, 'model ' + k)
                s.check([s.R(x) for x in s.items(s.attr(d, 'properties'))] == ['p' + k], 'field', 'properties of model %s' % k)
        last = [k for k, v in H.items() if not v]
        if last:
            anc = lambda k: {k} | {x for a, v in H.items() if k in v for x in anc(a)}
            f = s.attr(s.item(defs, 'pet' + SEP + last[-1]), 'final')
            s.check(sorted(s.items(s.attr(f, 'properties'))) == sorted('p' + x for x in anc(last[-1])), 'inherit', lambda: 'the combined view of model %s has %s' % (last[-1], show(s.attr(f, 'properties'))))
    run.explore('inheritance of models', inherit)


def auths(run):
    def schemes(s):
        n = name(s, 'n')
        k = s.choice('kind', 'basicAuth', 'apiKey', 'oauth2')
        v = {x: s.token(x) for x in ('keyname', 'authUrl', 'tokenUrl', 'scope', 'sd')}
        d, want = {'type': k}, {'type': {'basicAuth': 'basic'}.get(k, k), 'name': None, 'in': None, 'authorizationUrl': None, 'tokenUrl': None}
        if k == 'apiKey':
            d.update(passAs=s.choice('passAs', 'header', 'query'), keyname=v['keyname'])
            want.update({'name': v['keyname'], 'in': d['passAs']})
        sc = []
        if k == 'oauth2':
            g = s.choice('grant', 'implicit', 'authorization_code', 'both')
            d['grantTypes'] = {}
            if g in ('implicit', 'both'):
                d['grantTypes']['implicit'] = {'loginEndpoint': {'url': v['authUrl']}, 'tokenName': 't'}
                want['authorizationUrl'] = v['authUrl']
            if g in ('authorization_code', 'both'):
                d['grantTypes']['authorization_code'] = {'tokenRequestEndpoint': {'url': 'r'}, 'tokenEndpoint': {'url': v['tokenUrl']}}
                want['tokenUrl'] = v['tokenUrl']
            sc = [{'scope': v['scope'], 'description': v['sd']}, {'scope': 'other'}][:s.choice('scopes', 0, 1, 2)]
            if sc:
                d['scopes'] = sc
        both = s.choice('another scheme', True, False)
        rl = rlist(authorizations=dict({n: d}, **({'zz': {'type': 'basicAuth'}} if both else {})))
        app = upgraded(s, docs_of(rl))
        sd = s.attr(s.attr(app, 'root'), 'securityDefinitions')
        s.check(s.len(sd) == 1 + both, 'schemes', lambda: 'security schemes are %s' % show(sd))
        x = s.item(sd, n)
        fields(s, x, want, 'a security scheme of type ' + k)
        if k == 'oauth2' and 'implicit' in d['grantTypes']:
            fields(s, x, {'flow': 'implicit'}, 'an implicit security scheme')
        got = s.attr(x, 'scopes')
        s.check(s.len(got) == len(sc), 'scopes', lambda: 'scopes are %s' % show(got))
        for c in sc:
            fields(s, x, {}, '')
            s.check(s.same(s.item(got, c['scope']), c.get('description')), 'scopes', 'description of a scope')
    run.explore('security schemes', schemes)

    def code(s):
        rl = rlist(authorizations={'o': {'type': 'oauth2', 'grantTypes': {'authorization_code': {'tokenRequestEndpoint': {'url': 'r'}, 'tokenEndpoint': {'url': 'u'}}}}})
        x = s.item(s.attr(s.attr(upgraded(s, docs_of(rl)), 'root'), 'securityDefinitions'), 'o')
        s.check(s.R(s.attr(x, 'flow')) == 'accessCode', 'flow', lambda: 'the flow of an authorization code grant is %s, specified accessCode' % show(s.attr(x, 'flow')))
    run.explore('flow of authorization codes', code)

    def security(s):
        a, b = name(s, 'a'), name(s, 'b')
        sc, sd = s.token('sc'), s.token('sd')
        at = s.choice('given by', 'operation', 'declaration', 'both', 'none')
        A = {'authorizations': {a: [{'scope': sc}, {'scope': 'x', 'description': 'y'}]}}
        B = {'authorizations': {b: []}}
        two = s.choice('two of them', False, True)
        if two:
            A['authorizations'][b] = [{'scope': sd}]
        o = op('n', **(A if at in ('operation', 'both') else {}))
        app, u = one(s, o, **(B if at == 'both' else A if at == 'declaration' else {}))
        got = {}
        for r in s.items(s.attr(u, 'security')):
            for k in s.items(r):
                got[s.I.U(s.R(k))] = s.items(s.item(r, k))
        want = A['authorizations'] if at != 'none' else {}
        s.check(len(got) == len(want), 'security', lambda: 'security of an operation is %s' % show(s.attr(u, 'security')))
        for n, scs in want.items():
            g = [v for k, v in got.items() if s.same(k, n)]
            s.check(len(g) == 1 and len(g[0]) == len(scs) and all(s.same(x, y['scope']) for x, y in zip(g[0], scs)), 'security', lambda: 'security of an operation is %s' % show(s.attr(u, 'security')))
    run.explore('security of operations', security)

    def none(s):
        o = op('n', authorizations={})
        app, u = one(s, o, authorizations={'a': []})
        s.check(not s.items(s.attr(u, 'security')), 'removed', 'an empty authorizations object of an operation does not remove those of its declaration')
    run.explore('removed security', none)


def rejected(run):
    def body(s):
        what = s.choice('what', '$ref in a parameter', 'model type of multiple values', '$ref in items', 'model type in items', 'limit on text', 'limit on a body', 'limit on a property', 'limit on a return value')
        at = s.choice('location', 'query', 'path', 'header', 'form')
        P = {'paramType': at, 'name': 'p'}
        o, kw = op('n'), {'models': dict(MODELS)}
        lim = s.choice('limit', 'minimum', 'maximum')
        if what == '$ref in a parameter':
            P['$ref'] = 'Pet'
        elif what == 'model type of multiple values':
            P.update(type='Pet', allowMultiple=True)
        elif what == '$ref in items':
            P.update(type='array', items={'$ref': 'Pet'})
        elif what == 'model type in items':
            P.update(type='array', items={'type': 'Pet'})
        elif what == 'limit on text':
            P.update({'type': s.choice('type', 'string', 'boolean'), lim: '3'})
        elif what == 'limit on a body':
            P.update({'paramType': 'body', 'name': 'body', 'type': 'string', lim: '3'})
        elif what == 'limit on a property':
            kw['models']['Own'] = {'id': 'Own', 'properties': {'f': {'type': 'string', lim: 3}}}
        else:
            o.update({'type': 'string', lim: '3'})
        if len(P) > 2:
            o['parameters'] = [P]
        r = load(s, docs_of(rlist('pet'), pet=decl([{'path': '/a', 'operations': [o]}], **kw)))
        s.check(r.is_exc('SchemaError'), 'rejected', lambda: '%s: %r, specified SchemaError' % (what, r), r.site)
    run.explore('constructs without equivalent', body)


def names(run):
    """names with characters that JSON pointers escape"""
    def body(s):
        n = s.choice('resource', 'a/b', 'a~b', 'a~1b', 'api/v1/pets')
        i = s.choice('model', 'M', 'M~x', 'M/y')
        k = s.choice('authorization', 'k', 'k/l', 'k~0')
        x = s.token('x')
        d = decl([{'path': '/a', 'operations': [op('n', 'POST', type=i, summary=x, authorizations={k: []}, parameters=[{'paramType': 'body', 'name': 'body', '$ref': i}])]}],
                 models={i: {'id': i, 'properties': {'p': {'$ref': i}}, 'subTypes': ['S']}, 'S': {'id': 'S', 'properties': {}}})
        app = upgraded(s, docs_of(rlist(n, authorizations={k: {'type': 'basicAuth'}}), **{n: d}))
        r = s.attr(app, 'root')
        M = s.item(s.attr(app, 'm'), (n, i))
        s.check(s.same(s.item(s.attr(r, 'definitions'), n + SEP + i), M), 'names', 'the definition of a model is another')
        u = s.item(s.attr(app, 'op'), (n, 'n'))
        s.same_ob(s.attr(u, 'summary'), x, 'names', 'summary')
        fields(s, u, {'tags': [n]}, 'an operation', 'names')
        s.check([s.R(s.attr(t, 'name')) for t in s.items(s.attr(r, 'tags'))] == [n], 'names', 'name of the tag')
        refs = [s.attr(s.item(s.attr(u, 'responses'), 'default'), 'schema'), s.attr(s.item(s.attr(u, 'parameters'), 0), 'schema'), s.item(s.attr(M, 'properties'), 'p'), s.item(s.attr(s.item(s.attr(app, 'm'), (n, 'S')), 'allOf'), 0)]
        for y in refs:
            s.check(s.same(s.attr(y, 'ref_obj'), M), 'names', 'a reference to a model denotes another')
        s.check([s.R(y) for y in s.items(s.attr(r, 'securityDefinitions'))] == [k], 'names', 'name of the security scheme')
        s.check([s.R(y) for y in s.items(s.item(s.attr(u, 'security'), 0))] == [k], 'names', 'name in the security of an operation')
    run.explore('names', body)
