"""Fetching.  Resolver.resolve with every combination of explicit getter (class or instance), default getter and scheme, with
and without a load hook, over sequences of references to generic locations; LocalGetter on files, folders and extension-less
paths with generic folder and file names (also those that URLs escape); UrlGetter; DictGetter.  Which location is read, how
often, and which part of which document comes back, against the specified one."""
from .common import *

EXT = ('json', 'yaml', 'yml')
NAMES = ('resource_list.json', 'swagger.json', 'swagger.yaml', 'swagger.yml')


def getter(s, label, docs):
    """a getter class of the caller, serving docs; fetches are events named label"""
    I = s.I
    ds = [(u, s.obj(d)) for u, d in docs]

    def load(I, a, kw):
        I.event(label, a[1:], kw)
        for u, d in ds:
            if s.same(u, a[1]):
                return d
        raise I.exc('ValueError', 'no document at ' + show(a[1]))
    return I.make_class(label, [s.get('pyswagger.getter:SimpleGetter')], {'load': Builtin('load', load)})


def fetches(s, *labels):
    return [(e.name, e.args[0]) for e in s.events('explicit', 'default', 'open', 'urlopen')]


def part(s, o, want, what):
    s.check(o.ok, 'found', lambda: '%s: %r' % (what, o), o.site)
    s.same_ob(o.value, want, 'part', what)


def check(run):
    choose(run)
    histories(run)
    pointers(run)
    failures(run)
    local(run)
    remote(run)
    listed(run)


def choose(run):
    """which getter is used, and where it reads"""
    def body(s):
        explicit = s.choice('explicit getter', None, 'class', 'instance')
        default = s.choice('default getter', None, 'class', 'instance')
        scheme = s.choice('scheme', 'http', 'https', 'file')
        hook = s.choice('hook', None, 'same kind', 'to a file', 'to the web')
        f, g = name(s, 'f'), name(s, 'g')
        u = s.cat('file:///' if scheme == 'file' else scheme + '://h.com/', f, '.json')
        lu = u
        if hook:
            kind = scheme if hook == 'same kind' else 'file' if hook == 'to a file' else 'http'
            lu = s.cat('file:///d/' if kind == 'file' else kind + '://o.com/', g, '.json')
        else:
            kind = scheme
        path = None
        if kind == 'file':
            path = s.cat('/d/', g, '.json') if hook else s.cat('/', f, '.json')
        x = {k: s.token('x ' + k) for k in ('explicit', 'default', 'file', 'net')}

        def d(k):
            return {'a': x[k]}
        text = lambda k: s.I.call_ext('json.dumps', [s.obj(d(k))], {})
        storage(s, [(path, '{"a": "from a file"}')] if path is not None else [], [(lu, '{"a": "from the web"}')])
        G = {k: getter(s, k, [(lu, d(k))]) for k in ('explicit', 'default')}
        r = s.must('pyswagger.resolve:Resolver', s.fn('hook', lambda I, a, k: (I.event('hook', a, k), lu)[1]) if hook else None,
                   **({'default_getter': G['default'] if default == 'class' else s.must(G['default'], lu)} if default else {}))
        kw = {}
        if explicit:
            kw['getter'] = G['explicit'] if explicit == 'class' else s.must(G['explicit'], lu)
        o = s.meth(r, 'resolve', s.cat(u, '#/a'), **kw)
        if explicit:
            want, src = x['explicit'], ('explicit', lu)
        elif kind == 'file':
            want, src = 'from a file', ('open', path)
        elif default:
            want, src = x['default'], ('default', lu)
        else:
            want, src = 'from the web', ('urlopen', lu)
        part(s, o, want, 'document %s' % show(u))
        got = fetches(s)
        s.check(len(got) == 1 and got[0][0] == src[0] and s.same(got[0][1], src[1]), 'source', lambda: 'reads %s, specified %s' % ([(a, show(b)) for a, b in got], (src[0], show(src[1]))))
        for e in s.events('hook'):
            s.check(len(e.args) == 1 and s.same(e.args[0], u), 'hook', lambda: 'the hook is given %s for %s' % ([show(a) for a in e.args], show(u)))
        s.check(bool(s.events('hook')) == bool(hook), 'hook', 'the hook is not asked')
    run.explore('choice of the getter', body)


def histories(run):
    """sequences of references to several documents"""
    def body(s):
        f, g = name(s, 'f'), name(s, 'g')
        us = [s.cat('http://h.com/', f, '.json'), s.cat('http://h.com/', g, '.json'), s.cat('http://h.com/', f, '.yaml'), s.cat('http://h.com/', f, '.json?v=1'),
              s.cat('http://h.com:81/', f, '.json'), s.cat('https://h.com/', f, '.json'), s.cat('http://h.com/', f)]
        hook = s.choice('hook', None, 'one to one', 'all to one')
        ls = us if not hook else [s.cat('http://o.com/%d/' % i, f) for i in range(len(us))] if hook == 'one to one' else [s.cat('http://o.com/', f)] * len(us)
        xs = [(s.token('a%d' % i), s.token('b%d' % i)) for i in range(len(us))]
        if hook == 'all to one':
            xs = [xs[0]] * len(us)
        docs = [(l, {'a': x, 'b': {'c': y}}) for l, (x, y) in zip(ls, xs)]

        def h(I, a, k):
            for u, l in zip(us, ls):
                if s.same(u, a[0]):
                    return l
            return a[0]
        G = getter(s, 'default', docs)
        r = s.must('pyswagger.resolve:Resolver', s.fn('hook', h) if hook else None, G)
        i = s.choice('second document', *range(1, len(us)))
        seq = s.choice('references', [(0, 'a'), (0, 'b')], [(0, 'a'), (i, 'a'), (0, 'b'), (i, 'b')], [(0, None), (0, 'a'), (i, None), (i, 'a')], [(i, 'b'), (0, 'b'), (i, 'b')])
        first = {}
        for k, f_ in seq:
            o = s.meth(r, 'resolve', us[k] if f_ is None else s.cat(us[k], {'a': '#/a', 'b': '#/b/c'}[f_]))
            if f_ is None:
                s.check(o.ok, 'found', lambda: '%r' % (o,), o.site)
                s.same_ob(s.item(o.value, 'a'), xs[k][0], 'part', 'document %s' % show(us[k]))
            else:
                part(s, o, xs[k][0 if f_ == 'a' else 1], 'reference %s into %s' % (f_, show(us[k])))
        n = len(fetches(s))
        s.check(n == len({k for k, _ in seq}), 'once', lambda: '%d documents are fetched %d times: %s' % (len({k for k, _ in seq}), n, [show(b) for _, b in fetches(s)]))
        # two resolvers share nothing
        r2 = s.must('pyswagger.resolve:Resolver', None, getter(s, 'explicit', [(us[0], {'a': 'other'})]))
        part(s, s.meth(r2, 'resolve', s.cat(us[0], '#/a')), 'other', 'another resolver')
    run.explore('sequences of references', body)

    def given(s):
        """a getter given for one reference does not serve the next one"""
        f = name(s, 'f')
        u, w = s.cat('http://h.com/', f, '.json'), s.cat('http://h.com/', f, 'x.json')
        r = s.must('pyswagger.resolve:Resolver', None, getter(s, 'default', [(u, {'a': 'd'}), (w, {'a': 'w'})]))
        part(s, s.meth(r, 'resolve', s.cat(u, '#/a'), getter(s, 'explicit', [(u, {'a': 'e'})])), 'e', 'explicit getter')
        part(s, s.meth(r, 'resolve', s.cat(w, '#/a')), 'w', 'default getter')
        part(s, s.meth(r, 'resolve', s.cat(u, '#/a')), 'e', 'known document')
        part(s, s.meth(r, 'resolve', s.cat(u, '#/a'), getter(s, 'explicit', [(u, {'a': 'f'})])), 'e', 'known document')
        s.check(len(fetches(s)) == 2, 'once', lambda: 'fetches %s' % [(a, show(b)) for a, b in fetches(s)])
    run.explore('explicit getters', given)


def pointers(run):
    def body(s):
        f = name(s, 'f')
        u = s.cat('http://h.com/', f, '.json')
        a, b = name(s, 'a'), name(s, 'b')
        x, y = s.sym('x', 'str', 'int', 'list'), s.token('y')
        raw, enc = s.choice('name', (a, a), (s.cat(a, '/', b), s.cat(a, '~1', b)), (s.cat(a, '~', b), s.cat(a, '~0', b)), (s.cat('~1', a), s.cat('~01', a)), ('0', '0'))
        d, ptr, want = s.choice('place', ({raw: x}, ['', enc], 0), ({'k': {raw: x, 'z': y}}, ['', 'k', enc], 0), ({'k': [y, {raw: x}]}, ['', 'k', '1', enc], 0),
                                ({'k': [{raw: [y, x]}, y]}, ['', 'k', '0', enc, '1'], 0), ({raw: {raw: {raw: x}}}, ['', enc, enc, enc], 0))
        r = s.must('pyswagger.resolve:Resolver', None, getter(s, 'default', [(u, d)]))
        p = '#'
        for t in ptr[1:]:
            p = s.cat(p, '/', t)
        s.assume(s.truth(x))
        part(s, s.meth(r, 'resolve', s.cat(u, p)), x, 'pointer %s' % show(p))
    run.explore('parts of documents', body)


def failures(run):
    def body(s):
        f, n = name(s, 'f'), name(s, 'n')
        u = s.cat('http://h.com/', f, '.json')
        how = s.choice('failure', 'empty document', 'unknown name', 'unknown name inside', 'beyond the list', 'no number', 'below a text', 'no such document', 'empty list')
        d = {} if how == 'empty document' else [] if how == 'empty list' else {'a': {'b': 'x'}, 'l': ['y'], n: 'z'}
        r = s.must('pyswagger.resolve:Resolver', None, getter(s, 'default', [(s.cat(u, 'x') if how == 'no such document' else u, d)]))
        p = {'empty document': s.choice('pointer', '', '#', '#/a'), 'unknown name': s.cat('#/', n, 'x'), 'unknown name inside': s.cat('#/a/', n), 'beyond the list': '#/l/1',
             'no number': s.cat('#/l/', n), 'below a text': '#/a/b/c', 'no such document': '#/a', 'empty list': ''}[how]
        if how == 'no number':
            p = '#/l/x'
        for _ in range(2):
            o = s.meth(r, 'resolve', s.cat(u, p))
            s.check(not o.ok, 'raises', lambda: '%s: %r, specified an error' % (how, o))
    run.explore('failures', body)

    def retry(s):
        """a failed fetch is not remembered"""
        u = s.cat('http://h.com/', name(s, 'f'), '.json')
        n = [0]

        def load(I, a, kw):
            n[0] += 1
            if n[0] == 1:
                raise I.exc('OSError', 'temporary')
            return s.obj({'a': 'x'})
        G = s.I.make_class('Flaky', [s.get('pyswagger.getter:SimpleGetter')], {'load': Builtin('load', load)})
        r = s.must('pyswagger.resolve:Resolver', None, G)
        o = s.meth(r, 'resolve', s.cat(u, '#/a'))
        s.check(o.is_exc('OSError'), 'raises', lambda: 'a failing getter: %r' % (o,))
        part(s, s.meth(r, 'resolve', s.cat(u, '#/a')), 'x', 'the second try')
    run.explore('failing getter', retry)


def local(run):
    """LocalGetter, directly, through App.load and through the resolver"""
    def body(s):
        d = s.choice('folder', s.cat('/', name(s, 'd')), s.cat('/', name(s, 'd'), '/', name(s, 'e')), '/my docs', '/docs.json', '/docs.yaml', '/v1.2', '/100%', '/a#b', '/a?b', '/docs.yml/api.json')
        e = s.choice('extension', *EXT)
        other = s.cat(name(s, 'f'), '.', e)
        fn = s.choice('file', other, 'swagger.' + e, 'my api.' + e, 'resource_list.json') if not (isinstance(d, str) and run.tier == 'quick') else s.choice('file', other, 'swagger.' + e)
        given = s.choice('given', 'file', 'folder', 'without extension')
        through = s.choice('through', 'getter', 'app', 'file URL')
        if given == 'folder' and not (isinstance(fn, str) and fn in NAMES):
            raise Skip()
        if given == 'without extension' and isinstance(fn, str) and fn in NAMES:
            raise Skip()
        full = s.cat(d, '/', fn)
        storage(s, [(full, '{"swagger": "2.0", "paths": {}, "info": {"title": "t"}}')])
        p = full if given == 'file' else d
        if given == 'without extension':
            p = s.cat(d, '/', name(s, 'f') if not isinstance(fn, str) else 'my api')
        if through == 'getter':
            o = s.call('pyswagger.getter:LocalGetter', p)
            s.check(o.ok, 'accept', lambda: 'LocalGetter(%s) with %s: %r' % (show(p), show(full), o), o.site)
            o = s.meth(o.value, '__next__')
        elif through == 'app':
            o = s.call(s.attr(s.get('pyswagger.core:App'), 'load'), p)
        else:
            r = s.must('pyswagger.resolve:Resolver')
            o = s.meth(r, 'resolve', s.cat('file://', s.I.call_ext('urllib.parse.quote', [p], {})))
        s.check(o.ok, 'accept', lambda: 'loading %s with file %s: %r' % (show(p), show(full), o), o.site)
        got = s.events('open')
        s.check(len(got) == 1 and s.same(got[0].args[0], full), 'source', lambda: 'opens %s, specified %s' % ([show(x.args[0]) for x in got], show(full)))
        if through == 'app':
            s.same_ob(s.attr(s.attr(s.attr(o.value, 'raw'), 'info'), 'title'), 't', 'part', 'title')
        else:
            s.same_ob(s.item(o.value, 'swagger'), '2.0', 'part', 'version')
    run.explore('local files', body)

    def none(s):
        """what does not exist is an error, and the first of the known names is taken"""
        d = s.cat('/', name(s, 'd'))
        have = s.choice('files', [], list(NAMES), list(NAMES[1:]), list(NAMES[2:]), ['other.json'], ['swagger.yml'])
        storage(s, [(s.cat(d, '/', n), '{"swagger": "2.0", "n": "%s"}' % n) for n in have])
        o = s.call('pyswagger.getter:LocalGetter', d)
        ks = [n for n in NAMES if n in have]
        if not ks:
            s.check(not o.ok or not s.meth(o.value, '__next__').ok, 'raises', lambda: 'a folder without a document: %r' % (o,))
            return
        s.check(o.ok, 'accept', lambda: '%r' % (o,), o.site)
        o = s.meth(o.value, '__next__')
        s.check(o.ok, 'accept', lambda: '%r' % (o,), o.site)
        s.same_ob(s.item(o.value, 'n'), ks[0], 'source', 'the document of a folder with %s' % have)
    run.explore('folders', none)


def remote(run):
    def body(s):
        u = s.cat(s.choice('scheme', 'http', 'https'), '://', name(s, 'h'), '/', name(s, 'f'), s.choice('end', '.json', '', '/', '?v=1'))
        storage(s, [], [(u, s.choice('content', '{"a": "x"}', b'{"a": "x"}'))])
        g = s.must('pyswagger.getter:UrlGetter', u)
        o = s.meth(g, '__next__')
        s.check(o.ok, 'accept', lambda: '%r' % (o,), o.site)
        s.same_ob(s.item(o.value, 'a'), 'x', 'part', 'the document')
        got = s.events('urlopen')
        s.check(len(got) == 1 and s.same(got[0].args[0], u), 'source', lambda: 'opens %s, specified %s' % ([show(x.args[0]) for x in got], show(u)))
        s.check(s.meth(g, '__next__').is_exc('StopIteration'), 'end', 'a getter yields its document once')
    run.explore('web resources', body)


def listed(run):
    """DictGetter serves its urls in their order"""
    def body(s):
        us = [s.cat('http://h.com/', name(s, 'u%d' % i)) for i in range(3)]
        xs = [s.token('x%d' % i) for i in range(3)]
        g = s.must('pyswagger.getter:DictGetter', s.list(*us), s.dict(*[(u, s.dict(('a', x))) for u, x in zip(us, xs)]))
        for x in xs:
            o = s.meth(g, '__next__')
            s.check(o.ok, 'accept', lambda: '%r' % (o,), o.site)
            s.same_ob(s.item(o.value, 'a'), x, 'part', 'the next document')
        s.check(s.meth(g, '__next__').is_exc('StopIteration'), 'end', 'a getter without further urls yields a document')
    run.explore('listed documents', body)
