"""Request URLs.  Documents with every combination of host, base path, scheme lists and loading URL (generic names) and path templates
with up to three generic parameters holding arbitrary values: URL and path of the prepared request are composed of exactly the
specified parts, each parameter percent-encoded with nothing left unescaped; scheme negotiation and the url_netloc / url_scheme
options are compared with their documented effect."""
from .common import *
from .c07 import decl


def host(s, n):
    return s.token(n, nochars=NAMEX.replace('.', ''))


def seg(s, n):
    return s.token(n, nochars=NAMEX)


def check(run):
    # ---- where the host and base path come from
    def base(has_host, has_base, url):
        def setup(s):
            h, b, u = host(s, 'host'), s.cat('/', seg(s, 'base')), host(s, 'urlhost')
            d = opdoc([], path=s.cat('/', seg(s, 'path')))
            if has_host:
                d['host'] = h
            else:
                del d['host']
            if has_base:
                d['basePath'] = b
            else:
                del d['basePath']
            loc = {'http': s.cat('http://', u, '/d/swagger.json'), 'file': 'file:///d/swagger.json', 'https': s.cat('https://', u, '/swagger.json')}[url]
            want = s.cat('://', h if has_host else 'localhost' if url == 'file' else u, b if has_base else '', '/', seg(s, 'path'))
            return op_of(s, app_of(s, d, url=loc)), want, b if has_base else None

        def body(s, pre):
            op, want, b = pre
            req = s.items(s.must(op))[0]
            sch = s.choice('scheme', 'http', 'https')
            o = s.meth(req, 'prepare', scheme=sch)
            s.check(o.ok, 'prepare', lambda: '%r' % (o,), o.site)
            s.same_ob(s.attr(req, 'url'), s.cat(sch, want), 'url', 'URL')
            s.same_ob(s.attr(req, 'path'), s.cat('/', seg(s, 'path')), 'path', 'path')
            s.same_ob(s.attr(req, 'base_path'), b, 'base path', 'base path')
        run.explore('%s host, %s base path, loaded from %s' % ('own' if has_host else 'no', 'own' if has_base else 'no', url), body, setup)
    for hh in (True, False):
        for hb in (True, False):
            for u in ('http', 'file', 'https'):
                base(hh, hb, u)

    # ---- path templates
    def template(shape, n):
        def setup(s):
            ns = [seg(s, 'n%d' % i) for i in range(n)]
            t = []
            for x in shape:
                t += ['{', ns[x], '}'] if isinstance(x, int) else [x]
            app = app_of(s, opdoc([decl(x, 'path', True) for x in ns], path=s.cat(*t)))
            return op_of(s, app), ns

        def body(s, pre):
            op, ns = pre
            vs = [s.sym('v%d' % i, 'str') for i in range(n)]
            req = s.items(s.I_call(op, dict(zip(ns, vs))).value)[0]
            want = s.cat(*[quoted(s, vs[x]) if isinstance(x, int) else x for x in shape])
            o = s.meth(req, 'prepare')
            s.check(o.ok, 'prepare', lambda: '%s: %r' % (shape, o), o.site)
            s.same_ob(s.attr(req, 'url'), s.cat('http://h.com/v1', want), 'url', 'URL of template %s' % (shape,))
            s.same_ob(s.attr(req, 'path'), want, 'path', 'path of template %s' % (shape,))
        run.explore('template %s' % (shape,), body, setup)
    template(('/',), 0)
    template(('/a/',), 0)
    template(('/', 0, '/'), 1)
    template(('/a/', 0), 1)
    template(('/', 0, '/b'), 1)
    template(('/', 0, '/b/', 1), 2)
    template(('/', 1, '/', 0), 2)
    template(('/x-', 0, '_', 1, '.json'), 2)
    template(('/', 0, '/', 0), 1)
    template(('/', 0, 1, '/', 2), 3)

    def number():
        def setup(s):
            p = decl('p', 'path', True)
            p['type'] = 'integer'
            return op_of(s, app_of(s, opdoc([p], path='/a/{p}')))

        def body(s, op):
            v = s.sym('v', 'int')
            req = s.items(s.must(op, p=v))[0]
            s.must(s.attr(req, 'prepare'))
            s.same_ob(s.attr(req, 'url'), s.cat('http://h.com/v1/a/', quoted(s, s.I.mk_str(v))), 'url', 'URL')
        run.explore('number in the path', body, setup)
    number()

    def special(nm):
        def setup(s):
            return op_of(s, app_of(s, opdoc([decl(nm, 'path', True)], path='/a/{%s}' % nm)))

        def body(s, op):
            v = s.token('v')
            o = s.I_call(op, {nm: v})
            s.check(o.ok, 'prepare', lambda: 'name %s: %r' % (nm, o), o.site)
            req = s.items(o.value)[0]
            o = s.meth(req, 'prepare')
            s.check(o.ok, 'prepare', lambda: 'name %s: %r' % (nm, o), o.site)
            s.same_ob(s.attr(req, 'url'), s.cat('http://h.com/v1/a/', quoted(s, v)), 'url', 'URL')
        run.explore('parameter name %s' % nm, body, setup)
    for nm in ('a-b', 'a_b', 'a.b', '0', 'a:b', 'ID'):
        special(nm)

    # ---- schemes of operation, document and URL
    def schemes(own, doc_, url):
        def setup(s):
            d = opdoc([], **({'schemes': own} if own is not None else {}))
            if doc_ is None:
                del d['schemes']
            else:
                d['schemes'] = doc_
            return op_of(s, app_of(s, d, url='%s://h.com/swagger.json' % url))

        def body(s, op):
            req = s.items(s.must(op))[0]
            want = own or doc_ or [url]
            got = plain(s, s.attr(req, 'schemes'))
            s.check(sorted(got) == sorted(want), 'schemes', 'schemes of the request are %s, specified %s' % (got, want))
            B = s.get('pyswagger.core:BaseClient')
            C = s.I.make_class('C', [B], {'__schemes__': s.obj(set(s.choice('client', ('http', 'https'), ('https',), ('http',), ('ws', 'http'), ('ftp',))))})
            mine = plain(s, s.attr(C, '__schemes__'))['__set__']
            c = s.must(C)
            both = [x for x in want if x in mine]
            o = s.meth(c, 'prepare_schemes', req)
            if not both:
                s.check(o.is_exc('ValueError'), 'negotiation', lambda: 'no common scheme, specified ValueError, %r' % (o,), o.site)
                return
            s.check(o.ok, 'negotiation', lambda: '%r' % (o,), o.site)
            got = [s.R(x) for x in s.items(o.value)]
            s.check(sorted(got) == sorted(set(both)), 'negotiation', 'negotiated schemes %s, specified %s' % (got, both))
            pref = s.choice('preferred', None, *want)
            if pref is not None:
                s.I.setattr_(req, 'scheme', pref)
                s.same_ob(s.attr(req, 'scheme'), pref, 'negotiation', 'preferred scheme')
            o2 = s.meth(req, 'prepare', scheme=o.value)
            if pref is not None and pref not in both:
                s.check(o2.is_exc('Exception'), 'negotiation', lambda: 'preferred scheme %s is not among %s and has to be rejected, %r' % (pref, both, o2), o2.site)
                return
            s.check(o2.ok, 'negotiation', lambda: '%r' % (o2,), o2.site)
            u = s.R(s.attr(req, 'url'))
            s.check(u in ['%s://h.com/v1/a' % x for x in ([pref] if pref else both)], 'negotiation', lambda: 'URL %s with schemes %s, preferred %s' % (show(u), both, pref))
        run.explore('schemes %s / %s / %s' % (own, doc_, url), body, setup)
    for own, d, u in ((None, None, 'http'), (None, None, 'https'), (None, ['https'], 'http'), (None, ['http', 'https'], 'http'), (['https'], ['http'], 'http'),
                      (['ws'], ['http'], 'http'), ([], ['https'], 'http'), (['https', 'http'], None, 'ws')):
        schemes(own, d, u)

    def badscheme():
        def setup(s):
            return op_of(s, app_of(s, opdoc([])))

        def body(s, op):
            req = s.items(s.must(op))[0]
            o = s.meth(req, 'prepare', scheme=s.sym('scheme', s.choice('kind', 'int', 'none', 'dict', 'float')))
            s.check(o.is_exc('ValueError'), 'negotiation', lambda: 'scheme that is neither text nor a list, specified ValueError, %r' % (o,), o.site)
        run.explore('scheme of a wrong kind', body, setup)
    badscheme()

    # ---- options
    def patch(which):
        def setup(s):
            return op_of(s, app_of(s, opdoc([decl('p', 'path', True), decl('q', 'query')], path='/a/{p}')))

        def body(s, op):
            v, q, n, sc = s.token('v'), s.sym('q', 'str'), host(s, 'netloc'), s.token('scheme', nochars=NAMEX + '.')
            req = s.items(s.must(op, p=v, q=q))[0]
            s.must(s.attr(req, 'prepare'), scheme='https')
            opt = s.dict()
            if 'netloc' in which:
                s.I.setitem(opt, 'url_netloc', n)
            if 'scheme' in which:
                s.I.setitem(opt, 'url_scheme', sc)
            o = s.meth(req, '_patch', opt)
            s.check(o.ok, 'options', lambda: '%r' % (o,), o.site)
            s.same_ob(s.attr(req, 'url'), s.cat(sc if 'scheme' in which else 'https', '://', n if 'netloc' in which else 'h.com', '/v1/a/', quoted(s, v)), 'options', 'URL with %s' % which)
            s.same_ob(s.attr(req, 'path'), s.cat('/a/', quoted(s, v)), 'options', 'path with %s' % which)
            # the next request is not affected
            r2 = s.items(s.must(op, p=v))[0]
            s.must(s.attr(r2, 'prepare'))
            s.same_ob(s.attr(r2, 'url'), s.cat('http://h.com/v1/a/', quoted(s, v)), 'options', 'URL of a later request')
        run.explore('options %s' % (which or 'none'), body, setup)
    for w in ('', 'netloc', 'scheme', 'netloc+scheme'):
        patch(w)
