"""Resolving.  App.resolve on every kind of object at every place of a prepared document (tables of C18), by local pointer and
by full reference, names being generic and holding the characters the pointer syntax escapes; on documents the root does not
know (whole, part by part, overlapping parts in every order), each fetched at most once; plain values; everything that names
nothing raises."""
from .common import *
from .c18 import Version, put, walk

OTHER = 'http://h.com/other.json'
PARSER = {'paths': 'PathItem', 'definitions': 'Schema', 'parameters': 'Parameter', 'responses': 'Response'}
# names and their spelling in a JSON pointer (RFC 6901)
FAMILIES = ('plain', 'slash', 'tilde', 'tilde one', 'tilde zero', 'both', 'slash slash', 'edges', 'space', 'brace', 'hash', 'question', 'digits')


def names(s, fam, n):
    a, b = s.token(n + 'a', nochars=NAMEX), s.token(n + 'b', nochars=NAMEX)
    raw = {'plain': [a], 'slash': [a, '/', b], 'tilde': [a, '~', b], 'tilde one': [a, '~1', b], 'tilde zero': [a, '~0', b], 'both': [a, '/~', b, '~/'],
           'slash slash': ['/', a, '//', b], 'edges': ['~', a, '/'], 'space': [a, ' ', b], 'brace': ['{', a, '}'], 'hash': [a, '#', b], 'question': [a, '?', b],
           'digits': ['0']}[fam]
    enc = [x.replace('~', '~0').replace('/', '~1') if isinstance(x, str) else x for x in raw]
    return s.cat('', *raw), s.cat('', *enc)


def parser(s, kind):
    return s.get('pyswagger.spec.v2_0.parser:%sContext' % kind)


def target(s, o):
    return s.I.U(s.R(o))


def same_object(s, a, b, rule, what):
    a, b = target(s, a), target(s, b)
    s.check(a is b or not isinstance(a, Obj) and s.same(a, b), rule, lambda: '%s: %s, specified %s' % (what, show(a), show(b)))


def encode(path):
    return ''.join('/' + str(t).replace('~', '~0').replace('/', '~1') for t in path)


def load(s, docs, **kw):
    return s.must(s.attr(s.get('pyswagger.core:App'), 'load'), docs[0][0], resolver=world(s, docs), **kw)


def fetched(s, u):
    return [e for e in s.events('fetch') if s.same(e.args[0], u)]


def check(run):
    everywhere(run)
    spelling(run)
    parts(run)
    values(run)
    errors(run)
    shortcut(run)
    percent(run)


def everywhere(run):
    v = Version('2.0')
    extra = {'Parameter': {'name': 'p', 'in': 'query', 'type': 'string'}, 'Response': {'description': 'd'}, 'Operation': {'responses': {'200': {'description': 'ok'}}},
             'Swagger': {'swagger': '2.0'}}
    for k in sorted(v.table):
        for path in v.places[k]:
            path = tuple('/k' if t == 'K' and path[i - 1] == 'paths' else t for i, t in enumerate(path))

            def body(s, k=k, path=path):
                x = s.token('x')
                d = doc({})
                if path:
                    put(d, path, dict(extra.get(k, {}), **({'description': x} if 'description' in v.table[k][0].split() else {})))
                app = app_in(s, [(URL, d)])
                want = walk(s, s.attr(app, 'root'), path)
                s.check(s.I.isinstance_(want, v.klass(s, k)), 'anchor', lambda: 'no %s at %s' % (k, path))
                ptr = '#' + encode(path)
                how = s.choice('form', 'local', 'full', 'both')
                for r in {'local': [ptr], 'full': [URL + ptr], 'both': [ptr, URL + ptr, ptr]}[how]:
                    o = s.meth(app, 'resolve', r)
                    s.check(o.ok, 'resolves', lambda: 'resolving %s: %r' % (r, o), o.site)
                    same_object(s, o.value, want, 'object', 'the object at %s' % r)
                s.check(len(s.events('fetch')) == 1, 'fetched', lambda: 'fetches %s' % [show(e.args[0]) for e in s.events('fetch')])
            run.explore('%s at %s' % (k, '.'.join(map(str, path)) or 'the root'), body)


def spelling(run):
    """names with every character that pointers escape, in documents known and not known yet"""
    def body(s):
        fam = s.choice('name', *FAMILIES)
        n, e = names(s, fam, 'n')
        where = s.choice('document', URL, OTHER, 'fragment')
        at = s.choice('at', 'definitions', 'properties', 'paths', 'responses', 'second')
        x = s.token('x')
        docs = [(URL, doc({})), (OTHER, doc({}) if where != 'fragment' else {})]
        d = docs[where != URL][1]
        decoy = {'type': 'string', 'description': s.token('decoy')}
        if at == 'definitions':
            d['definitions'] = {'0x': decoy, n: {'type': 'string', 'description': x}}
            ptr, kind, leaf = s.cat('#/definitions/', e), 'Schema', 'description'
        elif at == 'properties':
            d['definitions'] = {'M': {'type': 'object', 'properties': {'0x': decoy, n: {'type': 'string', 'description': x}}}}
            ptr, kind, leaf = s.cat('#/definitions/M/properties/', e), 'Schema', 'description'
        elif at == 'second':
            d['definitions'] = {n: {'type': 'object', 'properties': {n: {'type': 'string', 'description': x}}}}
            ptr, kind, leaf = s.cat('#/definitions/', e, '/properties/', e), 'Schema', 'description'
        elif at == 'paths':
            d.setdefault('paths', {})[n] = {'get': {'summary': x, 'responses': resp()}}
            ptr, kind, leaf = s.cat('#/paths/', e, '/get'), 'Operation', 'summary'
        else:
            d['responses'] = {n: {'description': x}}
            ptr, kind, leaf = s.cat('#/responses/', e), 'Response', 'description'
        app = app_in(s, docs)
        o = s.meth(app, 'resolve', ptr if where == URL and s.choice('local', True, False) else s.cat(URL if where == URL else OTHER, ptr), parser(s, kind))
        s.check(o.ok, 'resolves', lambda: 'resolving %s: %r' % (show(ptr), o), o.site)
        s.same_ob(s.attr(o.value, leaf), x, 'object', '%s of the object at %s' % (leaf, show(ptr)))
        s.check(s.I.isinstance_(target(s, o.value), s.get('pyswagger.spec.v2_0.objects:' + kind)), 'kind', lambda: 'the object at %s is %s' % (show(ptr), show(target(s, o.value))))
    run.explore('names in pointers', body)


def parts(run):
    """objects of a document the root does not know: repeated and overlapping references"""
    def body(s):
        n = s.choice('name', name(s, 'n'), '')
        m = s.choice('other name', s.cat(n, name(s, 'suffix')), name(s, 'm'), s.cat(n, '-', 'x'))
        A = {'type': 'object', 'properties': {'p': {'type': 'string', 'description': s.token('p')}, 'q': {'type': 'array', 'items': {'type': 'string', 'description': s.token('i')}}}, 'description': s.token('A')}
        B = {'type': 'object', 'properties': {'p': {'type': 'string', 'description': s.token('Bp')}}, 'description': s.token('B')}
        whole = s.choice('document is', 'a fragment', 'a whole document')
        other = {'definitions': {n: A, m: B}}
        if whole == 'a whole document':
            other = doc({}, **other)
        app = app_in(s, [(URL, doc({})), (OTHER, other)])
        P = {'A': s.cat(OTHER, '#/definitions/', n), 'B': s.cat(OTHER, '#/definitions/', m)}
        for k in 'AB':
            P[k + 'p'] = s.cat(P[k], '/properties/p')
        P['Aq'] = s.cat(P['A'], '/properties/q')
        P['Ai'] = s.cat(P['A'], '/properties/q/items')
        W = {'A': A['description'], 'B': B['description'], 'Ap': A['properties']['p']['description'], 'Bp': B['properties']['p']['description'],
             'Ai': A['properties']['q']['items']['description']}
        if whole == 'a whole document':
            P['whole'] = OTHER
        seqs = [('A', 'B'), ('B', 'A'), ('A', 'Ap'), ('Ap', 'A'), ('Ap', 'A', 'Ap'), ('Ap', 'Bp', 'A', 'B'), ('A', 'Ai', 'Aq'), ('Ai', 'Aq', 'Ai', 'A', 'Ai'), ('Bp', 'Ap')]
        if 'whole' in P:
            seqs += [('whole', 'A', 'Ap'), ('A', 'whole', 'A'), ('Ap', 'whole', 'B'), ('whole', 'whole')]
        seq = s.choice('references', *seqs)
        got = []
        sc = parser(s, 'Schema')
        for k in seq:
            o = s.meth(app, 'resolve', P[k], sc) if k != 'whole' else s.meth(app, 'resolve', P[k])
            s.check(o.ok, 'resolves', lambda: 'resolving %s after %s: %r' % (k, got, o), o.site)
            if k in W:
                s.same_ob(s.attr(o.value, 'description'), W[k], 'object', 'the object at %s after resolving %s' % (k, [x for x, _ in got]))
            for kk, oo in got:
                if kk == k:
                    same_object(s, o.value, oo, 'again', 'the object at %s, resolved again' % k)
                elif kk == 'A' and k == 'Ap' and not any(x == 'Ap' for x, _ in got):
                    same_object(s, o.value, s.item(s.attr(oo, 'properties'), 'p'), 'inside', 'the property of an object that was resolved before')
                elif kk == 'whole' and k == 'A' and not any(x == 'A' for x, _ in got):
                    same_object(s, o.value, s.item(s.attr(oo, 'definitions'), n), 'inside', 'the definition of a document that was resolved before')
            got.append((k, o.value))
        s.check(len(fetched(s, OTHER)) == 1, 'fetched', lambda: 'the document is fetched %d times' % len(fetched(s, OTHER)))
        s.check(len(s.events('fetch')) == 2, 'fetched', lambda: 'fetches %s' % [show(e.args[0]) for e in s.events('fetch')])
    run.explore('parts of another document', body)

    def documents(s):
        """objects of the same name in different documents stay apart"""
        n = name(s, 'n')
        us = [URL, OTHER, 'http://h.com/sub/other.json', 'http://o.com/other.json', 'http://h.com/other.json?v=1', 'https://h.com/other.json']
        xs = [s.token('x%d' % i) for i in range(len(us))]
        i, j = s.choice('documents', *[(a, b) for a in range(len(us)) for b in range(len(us)) if a != b])
        docs = [(u, doc({}, definitions={n: {'type': 'string', 'description': x}}) if k == 0 else {'definitions': {n: {'type': 'string', 'description': x}}})
                for k, (u, x) in enumerate(zip(us, xs))]
        app = app_in(s, docs)
        for k in (i, j, i):
            o = s.meth(app, 'resolve', s.cat(us[k], '#/definitions/', n), parser(s, 'Schema'))
            s.check(o.ok, 'resolves', lambda: 'resolving in %s: %r' % (us[k], o), o.site)
            s.same_ob(s.attr(o.value, 'description'), xs[k], 'object', 'the object in %s' % us[k])
            s.check(len(fetched(s, us[k])) == 1, 'fetched', lambda: '%s is fetched %d times' % (us[k], len(fetched(s, us[k]))))
    run.explore('several documents', documents)


def values(run):
    def body(s):
        f, kinds = s.choice('field', ('maximum', ('int', 'float')), ('minLength', ('int',)), ('pattern', ('str',)), ('uniqueItems', ('bool',)), ('default', ('str', 'int', 'float', 'bool')))
        x = s.sym('x', *kinds)
        app = app_in(s, [(URL, doc({}, definitions={'M': {'type': 'string', f: x}}))])
        o = s.meth(app, 'resolve', s.choice('form', '', URL) + '#/definitions/M/' + f)
        s.check(o.ok, 'resolves', lambda: 'resolving the %s of a schema, %s: %r' % (f, show(s.R(x)), o), o.site)
        s.same_ob(o.value, x, 'value', 'the value')
    run.explore('plain values', body)

    def containers(s):
        xs = [s.token('x'), s.token('y')]
        f = s.choice('field', 'required', 'enum')
        app = app_in(s, [(URL, doc({}, definitions={'M': {'type': 'object', f: xs, 'properties': {'p': {'type': 'string'}}}}))])
        i = s.choice('index', None, 0, 1)
        o = s.meth(app, 'resolve', '#/definitions/M/' + f + ('' if i is None else '/%d' % i))
        s.check(o.ok, 'resolves', lambda: '%r' % (o,), o.site)
        if i is None:
            got = s.items(o.value)
            s.check(len(got) == 2 and s.same(got[0], xs[0]) and s.same(got[1], xs[1]), 'value', lambda: 'the list is %s' % show(o.value))
        else:
            s.same_ob(o.value, xs[i], 'value', 'element of the list')
        o = s.meth(app, 'resolve', '#/definitions/M/properties')
        s.check(o.ok and [s.R(k) for k in s.items(o.value)] == ['p'], 'value', lambda: 'the properties are %r' % (o,))
        o = s.meth(app, 'resolve', '#/definitions/M/' + f + '/2')
        s.check(not o.ok, 'dangling', 'an element beyond the end of a list is found')
    run.explore('lists and maps', containers)


def errors(run):
    def body(s):
        how = s.choice('reference', 'empty', 'none', 'unknown definition', 'unknown property', 'unset field', 'unknown field', 'unknown object of another document',
                       'unknown document', 'prefix of a name', 'unset field of another document', 'without parser', 'index')
        n, m = name(s, 'n'), name(s, 'm')
        d = {'definitions': {n: {'type': 'array', 'items': {'type': 'string'}}, 'V': {'type': 'string', 'description': s.token('v')}}}
        app = app_in(s, [(URL, doc({'/a': {'get': {'operationId': 'o', 'responses': resp(), 'parameters': [{'name': 'p', 'in': 'query', 'type': 'string'}]}}}, **d)),
                         (OTHER, d)])
        if s.choice('something of the document is known', False, True):
            s.must(s.attr(app, 'resolve'), s.cat(OTHER, '#/definitions/', n), parser(s, 'Schema'))
        ref = {'empty': '', 'none': None, 'unknown definition': s.cat('#/definitions/', m), 'unknown property': s.cat('#/definitions/', n, '/properties/', m),
               'unset field': '#/definitions/V/items', 'unknown field': '#/models', 'unknown object of another document': s.cat(OTHER, '#/definitions/', m),
               'unknown document': 'http://h.com/missing.json#/definitions/V', 
               'prefix of a name': s.cat(OTHER, '#/definitions/', n, 'x'), 'unset field of another document': s.cat(OTHER, '#/definitions/V/items'),
               'without parser': s.cat(OTHER, '#/definitions/V'), 'index': '#/paths/~1a/get/parameters/1'}[how]
        a = [] if how == 'without parser' else [parser(s, 'Schema')]
        o = s.meth(app, 'resolve', ref, *a)
        s.check(not o.ok, 'dangling', lambda: '%s: %r, specified an error' % (how, o), o.site)
        if how in ('empty', 'none'):
            s.check(o.is_exc('ValueError'), 'empty', lambda: '%r, specified ValueError' % (o,), o.site)
    run.explore('references to nothing', body)


    def below(s):
        app = app_in(s, [(URL, doc({}, definitions={'V': {'type': 'string', 'description': s.token('v')}}))])
        o = s.meth(app, 'resolve', '#/definitions/V/description/x')
        s.check(not o.ok, 'dangling', lambda: 'a pointer below a text denotes the text')
    run.explore('pointers below plain values', below)

    def method(s):
        app = app_in(s, [(URL, doc({}, definitions={'V': {'type': 'string'}}))])
        n = s.choice('name', 'dump', 'resolve', 'final', '_parent_')
        o = s.meth(app, 'resolve', '#/definitions/V/' + n)
        s.check(not o.ok, 'dangling', lambda: 'a pointer that ends in %s denotes an attribute of the object that is no field' % n)
    run.explore('attributes that are no fields', method)


def shortcut(run):
    def body(s):
        a, b = name(s, 'a'), name(s, 'b')
        p = s.choice('path', s.cat('/', a), s.cat('/', a, '/', b), s.cat('/{', a, '}'), '/', s.cat('/~', a))
        app = app_in(s, [(URL, doc({p: {'get': {'responses': resp()}}, '/other': {'get': {'responses': resp()}}}, definitions={a: {'type': 'string'}}))])
        want = s.item(s.attr(s.attr(app, 'root'), 'paths'), p)
        given = s.choice('given', 'with slash', 'without')
        if given == 'without':
            if p == '/':
                raise Skip()
            p = s.cat(*[x[1:] if i == 0 and isinstance(x, str) else x for i, x in enumerate(p.args if isinstance(p, Term) else [p])])
        o = s.meth(app, 's', p)
        s.check(o.ok, 'resolves', lambda: 's(%s): %r' % (show(p), o), o.site)
        same_object(s, o.value, want, 'object', 's(%s)' % show(p))
        o = s.meth(app, 's', a, b=(None, '#/definitions'))
        s.check(o.ok, 'resolves', lambda: 's with another base: %r' % (o,), o.site)
        same_object(s, o.value, s.item(s.attr(s.attr(app, 'root'), 'definitions'), a), 'object', 's with another base')
    run.explore('shortcut', body)


def percent(run):
    def body(s):
        app = app_in(s, [(URL, doc({'/a/{id}': {'get': {'responses': resp()}}}))])
        o = s.meth(app, 'resolve', '#/paths/~1a~1%7Bid%7D')
        s.check(o.ok, 'percent', lambda: 'percent-encoded characters in a pointer are not decoded: %r' % (o,), o.site)
    run.explore('percent encoded pointers', body)
