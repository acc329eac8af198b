"""Placement of arguments.  Operations declaring generic parameters in every location, required or not, with and without
default, are called with every subset of arguments holding arbitrary values (so empty, zero and false ones are included);
the query pairs, headers, URL, payload and files of the prepared request hold exactly the given and defaulted parameters,
missing and unknown ones raise ValueError, and two calls share nothing."""
from .common import *

LOC = ('query', 'header', 'path', 'formData', 'body', 'file')


def decl(n, loc, required=False, default=MISSING, **kw):
    p = {'name': n, 'in': 'formData' if loc == 'file' else loc, 'required': required}
    if loc == 'file':
        p['type'] = 'file'
    elif loc == 'body':
        p['schema'] = dict({'type': 'string'}, **kw)
        if default is not MISSING:
            p['default'] = default
    else:
        p['type'] = 'string'
        if default is not MISSING:
            p['default'] = default
    if loc != 'body':
        p.update(kw)
    return p


def form(s, pairs):
    return s.I.call_ext('urllib.parse.urlencode', [s.list(*pairs)], {})


def observe(s, req, want, tmpl, what):
    """compare a request with the specified placement {loc: [(name, value)]}"""
    p = s.attr(req, '_p')
    for loc in ('query', 'formData'):
        got = [s.items(x) for x in s.items(s.item(p, loc))]
        w = want.get(loc, [])
        s.check(len(got) == len(w), 'placement', lambda: '%s: %d pairs in %s, specified %d' % (what, len(got), loc, len(w)))
        for (a, b), (n, v) in zip(got, w):
            s.same_ob(a, n, 'placement', '%s: name of a %s pair' % (what, loc))
            s.same_ob(b, v, 'placement', '%s: value of a %s pair' % (what, loc))
    for loc in ('header', 'path', 'body', 'file'):
        d = s.item(p, loc)
        w = want.get(loc, [])
        s.check(len(s.items(d)) == len(w), 'placement', lambda: '%s: %d entries in %s, specified %d' % (what, len(s.items(d)), loc, len(w)))
        for n, v in w:
            s.check(s.I.contains(d, n), 'placement', lambda: '%s: %s is missing in %s' % (what, show(n), loc))
            g = s.item(d, n)
            if loc == 'file':
                s.same_ob(s.attr(g, 'data'), v, 'placement', '%s: stream of a file' % what)
            else:
                s.same_ob(g, v, 'placement', '%s: value in %s' % (what, loc))
    # what a client sees
    s.must(s.attr(req, 'prepare'), handle_files=False)
    got = [s.items(x) for x in s.items(s.attr(req, 'query'))]
    s.check(len(got) == len(want.get('query', [])), 'request', '%s: query of the prepared request' % what)
    for (a, b), (n, v) in zip(got, want.get('query', [])):
        s.same_ob(a, n, 'request', '%s: query name' % what)
        s.same_ob(b, v, 'request', '%s: query value' % what)
    h = s.attr(req, 'header')
    extra = {'content-type', 'accept'}
    names = [k for k in s.items(h) if not (isinstance(k, str) and k.lower() in extra)]
    s.check(len(names) == len(want.get('header', [])), 'request', lambda: '%s: headers %s' % (what, [show(k) for k in names]))
    for n, v in want.get('header', []):
        s.same_ob(s.item(h, n), v, 'request', '%s: header' % what)
    url = s.cat('http://h.com/v1/a', *sum([['/', quoted(s, v)] for _, v in want.get('path', [])], []))
    s.same_ob(s.attr(req, 'url'), url, 'request', '%s: URL' % what)
    files = s.attr(req, 'files')
    s.check(len(s.items(files)) == len(want.get('file', [])), 'request', '%s: files of the request' % what)
    data = s.attr(req, 'data')
    if want.get('file'):
        got = [s.items(x) for x in s.items(data)]
        s.check(len(got) == len(want.get('formData', [])), 'request', '%s: form fields beside files' % what)
        for (a, b), (n, v) in zip(got, want.get('formData', [])):
            s.same_ob(b, v, 'request', '%s: form field beside files' % what)
    elif want.get('formData'):
        s.same_ob(data, form(s, want['formData']), 'request', '%s: payload' % what)
    elif want.get('body'):
        s.same_ob(data, s.I.call_ext('json.dumps', [want['body'][0][1]], {}), 'request', '%s: payload' % what)
    else:
        s.check(s.same(data, None), 'request', lambda: '%s: payload %s, specified none' % (what, show(data)))


def filearg(s, stream):
    return s.dict(('data', stream), ('filename', 'x'))


def check(run):
    # ---- one parameter: required x default x given, in each location
    def single(loc, required, dflt):
        def setup(s):
            n = name(s, 'p')
            d = s.sym('default', 'str') if dflt else MISSING
            tmpl = ['/a/{', n, '}'] if loc == 'path' else ['/a']
            app = app_of(s, opdoc([decl(n, loc, required, d)], path=s.cat(*tmpl), method='post'))
            return op_of(s, app), n, d

        def body(s, pre):
            op, n, d = pre
            given = s.choice('given', True, False)
            v = s.opaque('stream') if loc == 'file' else s.sym('v', 'str')
            o = s.I_call(op, {n: filearg(s, v) if loc == 'file' else v} if given else {})
            what = '%s%s parameter%s, %s' % ('required ' if required else '', loc, ' with default' if dflt else '', 'given' if given else 'not given')
            if not given and not dflt:
                if required:
                    s.check(o.is_exc('ValueError'), 'missing', lambda: what + ', specified ValueError, %r' % (o,), o.site)
                    return
                s.check(o.ok, 'accept', lambda: what + ', %r' % (o,), o.site)
                observe(s, s.items(o.value)[0], {}, None, what)
                return
            s.check(o.ok, 'accept', lambda: what + ', %r' % (o,), o.site)
            observe(s, s.items(o.value)[0], {loc: [(n, v if given else d)]}, None, what)
        run.explore('%s required=%s default=%s' % (loc, required, dflt), body, setup)
    for loc in LOC:
        for req in (True, False):
            for dflt in (True, False):
                if loc == 'file' and dflt or loc == 'path' and not req:
                    continue
                single(loc, req, dflt)

    # ---- converted values: arbitrary integers and booleans (falsy ones included)
    def converted(loc, t):
        def setup(s):
            p = decl('p', loc, True)
            (p['schema'] if loc == 'body' else p)['type'] = t
            return op_of(s, app_of(s, opdoc([p], path='/a/{p}' if loc == 'path' else '/a', method='post')))

        def body(s, op):
            k = {'integer': 'int', 'boolean': 'bool', 'number': 'float'}[t]
            v = s.sym('v', k)
            o = s.I_call(op, {'p': v})
            s.check(o.ok, 'accept', lambda: '%s %s, %r' % (t, loc, o), o.site)
            if loc == 'body':
                s.same_ob(s.item(s.item(s.attr(s.items(o.value)[0], '_p'), 'body'), 'p'), v, 'placement', 'body value')
            else:
                observe(s, s.items(o.value)[0], {loc: [('p', s.I.mk_str(v))]}, None, '%s %s' % (t, loc))
        run.explore('%s %s' % (t, loc), body, setup)
    for loc in ('query', 'header', 'path', 'formData', 'body'):
        for t in ('integer', 'boolean', 'number'):
            converted(loc, t)

    # ---- several parameters in all locations, every subset given
    def several(payload, via):
        def setup(s):
            ps = [decl('q1', 'query'), decl('h1', 'header'), decl('p1', 'path', True), decl('q2', 'query', False, s.sym('dq', 'str')), decl('p2', 'path', True),
                  decl('h2', 'header', False, s.sym('dh', 'str'))]
            ps += {'form': [decl('f1', 'formData'), decl('f2', 'formData', False, s.sym('df', 'str'))], 'body': [decl('b', 'body')],
                   'file': [decl('f1', 'formData'), decl('u1', 'file'), decl('u2', 'file')]}[payload]
            root = {}
            if via == 'references':
                root['parameters'] = {'X%d' % i: p for i, p in enumerate(ps)}
                ps = [{'$ref': '#/parameters/X%d' % i} for i in range(len(ps))]
            o = opdoc(ps if via != 'path item' else [], path='/a/{p1}/{p2}', method='post', root=root)
            if via == 'path item':
                o['paths']['/a/{p1}/{p2}']['parameters'] = ps
            return op_of(s, app_of(s, o))

        def body(s, op):
            names = {'q1': 'query', 'q2': 'query', 'h1': 'header', 'h2': 'header', 'p1': 'path', 'p2': 'path'}
            names.update({'form': {'f1': 'formData', 'f2': 'formData'}, 'body': {'b': 'body'}, 'file': {'f1': 'formData', 'u1': 'file', 'u2': 'file'}}[payload])
            opt = [n for n in sorted(names) if n not in ('p1', 'p2')]
            sets = [(), tuple(opt)] + [(n,) for n in opt] + [tuple(x for x in opt if x != n) for n in opt]
            give = ('p1', 'p2') + s.choice('given', *sets)
            args, want = {}, {}
            dflt = {'q2': 'dq', 'h2': 'dh', 'f2': 'df'}
            for n in sorted(names):
                loc = names[n]
                if n in give:
                    v = s.opaque('s' + n) if loc == 'file' else s.token('v' + n) if loc in ('path',) else s.sym('v' + n, 'str')
                    args[n] = filearg(s, v) if loc == 'file' else v
                    want.setdefault(loc, []).append((n, v))
                elif n in dflt:
                    want.setdefault(loc, []).append((n, s.sym(dflt[n], 'str')))
            o = s.I_call(op, args)
            s.check(o.ok, 'accept', lambda: 'given %s, %r' % (give, o), o.site)
            observe(s, s.items(o.value)[0], want, None, 'given %s' % (sorted(give),))
        run.explore('all locations with %s by %s' % (payload, via), body, setup, symlen=3)
    for payload in ('form', 'body', 'file'):
        several(payload, 'operation')
    several('form', 'references')
    several('body', 'references')
    several('form', 'path item')

    # ---- same name in two locations
    def twice():
        def setup(s):
            return op_of(s, app_of(s, opdoc([decl('x', 'query', True), decl('x', 'header', True)])))

        def body(s, op):
            v = s.sym('v', 'str')
            o = s.I_call(op, {'x': v})
            s.check(o.ok, 'accept', lambda: 'same name in query and header, %r' % (o,), o.site)
            observe(s, s.items(o.value)[0], {'query': [('x', v)], 'header': [('x', v)]}, None, 'same name in query and header')
        run.explore('same name in two locations', body, setup)
    twice()

    # ---- unknown arguments
    def unknown(nparams):
        def setup(s):
            return op_of(s, app_of(s, opdoc([decl('p%d' % i, loc, False, *([s.sym('dflt', 'str')] if i == 1 else [])) for i, loc in enumerate(('query', 'header', 'query')[:nparams])])))

        def body(s, op):
            args = {s.token('unknown'): s.sym('u', s.choice('kind', 'str', 'none', 'int'))}
            for i in range(nparams):
                if s.choice('given p%d' % i, True, False):
                    args['p%d' % i] = s.sym('v%d' % i, 'str')
            o = s.I_call(op, args)
            s.check(o.is_exc('ValueError'), 'unknown', lambda: 'an argument that is not declared has to raise ValueError, %r' % (o,), o.site)
        run.explore('unknown argument beside %d declared' % nparams, body, setup)
    for n in (0, 1, 3):
        unknown(n)

    # ---- names compare by case
    def case():
        def setup(s):
            return op_of(s, app_of(s, opdoc([decl('Abc', 'query', True)])))

        def body(s, op):
            o = s.I_call(op, {'abc': s.sym('v', 'str')})
            s.check(o.is_exc('ValueError'), 'unknown', lambda: 'parameter names are case sensitive, %r' % (o,), o.site)
        run.explore('case of names', body, setup)
    case()

    # ---- calls are independent
    def calls(second):
        def setup(s):
            ps = [decl('q', 'query'), decl('l', 'query', type='array', items={'type': 'string'}, collectionFormat='multi'), decl('h', 'header'), decl('f', 'formData'), decl('d', 'query', False, s.sym('dd', 'str'))]
            return op_of(s, app_of(s, opdoc(ps, method='post')))

        def body(s, op):
            a = {k: s.sym('a' + k, 'str') for k in 'qhfd'}
            el = s.token('el', nochars=',')
            lst = s.list(el)
            o1 = s.I_call(op, dict(a, l=lst))
            s.check(o1.ok, 'accept', lambda: 'first call %r' % (o1,), o1.site)
            b = {'same': a, 'nothing': {}, 'other': {k: s.sym('b' + k, 'str') for k in 'qh'}}[second]
            o2 = s.I_call(op, dict(b))
            s.check(o2.ok, 'accept', lambda: 'second call %r' % (o2,), o2.site)
            r1, p1 = s.items(o1.value)
            r2, p2 = s.items(o2.value)
            s.check(not s.same(r1, r2) and not s.same(p1, p2), 'independent', 'two calls return the same object')

            def want(x, l):
                w = {'query': [('q', x['q'])] if 'q' in x else []}
                if l:
                    w['query'] += [('l', el)]
                w['query'] += [('d', x.get('d', s.sym('dd', 'str')))]
                for n, loc in (('h', 'header'), ('f', 'formData')):
                    if n in x:
                        w[loc] = [(n, x[n])]
                return w
            order = s.choice('prepared first', 'first', 'second')
            for r, w, t in ([(r1, want(a, True), 'first call'), (r2, want(b, False), 'second call')] if order == 'first' else
                            [(r2, want(b, False), 'second call'), (r1, want(a, True), 'first call')]):
                observe(s, r, w, None, t)
            got = s.items(lst)
            s.check(len(got) == 1 and s.same(got[0], el), 'independent', 'the list passed by the caller was modified')
        run.explore('two calls, second with %s' % second, body, setup)
    for k in ('same', 'nothing', 'other'):
        calls(k)

    # ---- arrays of files
    def files():
        def setup(s):
            return op_of(s, app_of(s, opdoc([{'name': 'u', 'in': 'formData', 'type': 'array', 'items': {'type': 'file'}, 'collectionFormat': 'multi'}], method='post')))

        def body(s, op):
            n = s.choice('files', 1, 2, 3)
            st = [s.opaque('s%d' % i) for i in range(n)]
            o = s.I_call(op, {'u': s.list(*[filearg(s, x) for x in st])})
            s.check(o.ok, 'accept', lambda: '%d files, %r' % (n, o), o.site)
            d = s.attr(s.items(o.value)[0], 'files')
            got = s.items(s.item(d, 'u'))
            s.check(len(got) == n, 'placement', '%d files of %d' % (len(got), n))
            for g, x in zip(got, st):
                s.same_ob(s.attr(g, 'data'), x, 'placement', 'stream of a file')
        run.explore('array of files', body, setup)
    files()

    # ---- every method
    def method(m):
        def setup(s):
            return op_of(s, app_of(s, opdoc([decl('q', 'query')], method=m)))

        def body(s, op):
            v = s.sym('v', 'str')
            o = s.I_call(op, {'q': v})
            s.check(o.ok, 'accept', lambda: '%s, %r' % (m, o), o.site)
            req = s.items(o.value)[0]
            s.same_ob(s.attr(req, 'method'), m, 'method', 'method of the request')
            observe(s, req, {'query': [('q', v)]}, None, m)
        run.explore('method %s' % m, body, setup)
    for m in ('get', 'put', 'post', 'delete', 'options', 'head', 'patch'):
        method(m)
