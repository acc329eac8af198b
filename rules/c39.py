"""URL helpers.  Hosts, folders, names, queries and pointers are generic texts; the interpreter follows the helpers over every
shape of URL that can be built of them and every supported and unsupported extension, and compares the result part by part."""
from .common import *

U = 'pyswagger.utils:'
EXTS = ('.json', '.yaml', '.yml')
OTHERS = ('', '.xml', '.jsonx', '.geojson', 'json', 'yaml', 'yml', '-json', '.json.bak', '.xyml')


def call(s, fn, *a):
    o = s.call(U + fn, *a)
    s.check(o.ok, 'accepted', lambda: '%s(%s): %r' % (fn, ', '.join(show(x) for x in a), o), o.site)
    return o.value


def shape(s, path, queries=True, frag=False):
    """(url, function from a path to the url with it)"""
    scheme = s.choice('scheme', 'http', 'https', 'file')
    host = '' if scheme == 'file' else s.cat(name(s, 'host'), s.choice('port', '', ':8080'))
    q = s.cat('?', name(s, 'k'), '=', name(s, 'v')) if queries and s.choice('query', 'no', 'yes') == 'yes' else ''
    f = s.cat('#/', name(s, 'p')) if frag else ''
    mk = lambda p: s.cat(scheme, '://', host, p, q, f)
    return mk(path), mk


def folder(s, label='folder'):
    n = s.choice(label, 'root', 'one', 'two')
    return {'root': '', 'one': s.cat('/', name(s, 'd1')), 'two': s.cat('/', name(s, 'd1'), '/', name(s, 'd2'))}[n]


def check(run):
    def dirname(s):
        d = folder(s)
        ext = s.choice('extension', *(EXTS + OTHERS))
        p = s.cat(d, '/', name(s, 'f'), ext)
        u, mk = shape(s, p)
        # the URL of a folder is its own folder
        want = mk(s.cat(d if d != '' else '/')) if ext in EXTS else u
        s.same_ob(call(s, 'url_dirname', u), want, 'folder', 'the folder of %s' % show(u))
    run.explore('folders of documents', dirname, mods=('pyswagger',))

    def dirslash(s):
        d = folder(s)
        u, mk = shape(s, s.cat(d, '/') if s.choice('slash', 'no', 'yes') == 'yes' else d)
        s.same_ob(call(s, 'url_dirname', u), u, 'folder', 'the folder of a folder')
    run.explore('folders of folders', dirslash, mods=('pyswagger',))

    def join(s):
        d = folder(s)
        tail = s.choice('tail', '', '/')
        u, mk = shape(s, s.cat(d, tail))
        x, y = name(s, 'x'), name(s, 'y')
        p = {'name': x, '/name': s.cat('/', x), 'nested': s.cat(x, '/', y), '/nested': s.cat('/', x, '/', y), 'folder': s.cat(x, '/')}[s.choice('path', 'name', '/name', 'nested', '/nested', 'folder')]
        rel = s.I.R(p)
        rel = s.I.mk_cat(*[a[1:] if i == 0 and isinstance(a, str) and a.startswith('/') else a for i, a in enumerate(rel.args)]) if isinstance(rel, Term) and rel.op == 'cat' else rel
        s.same_ob(call(s, 'url_join', u, p), mk(s.cat(d, '/', rel)), 'join', '%s joined to %s' % (show(p), show(u)))
    run.explore('joining', join, mods=('pyswagger',))

    def resources(s):
        """dirname and join together: the resources of a resource list lie beside it"""
        d = folder(s)
        u, mk = shape(s, s.cat(d, '/', name(s, 'f'), s.choice('extension', *EXTS)))
        r = name(s, 'r')
        s.same_ob(call(s, 'url_join', call(s, 'url_dirname', u), r), mk(s.cat(d, '/', r)), 'join', 'a document beside another')
    run.explore('documents beside others', resources, mods=('pyswagger',))

    # references -----------------------------------------------------------------------------------------
    def split(s):
        d = folder(s)
        f = s.choice('fragment', 'none', 'empty', 'pointer')
        u, mk = shape(s, s.cat(d, '/', name(s, 'f'), '.json'))
        ptr = s.cat('#/', name(s, 'a'), '/', name(s, 'b'))
        r = s.items(call(s, 'jr_split', u if f == 'none' else s.cat(u, '#' if f == 'empty' else ptr)))
        s.check(len(r) == 2, 'split', lambda: 'jr_split returns %d parts' % len(r))
        s.same_ob(r[0], u, 'split', 'the document of a reference')
        s.same_ob(r[1], ptr if f == 'pointer' else '#', 'split', 'the pointer of a reference')
    run.explore('splitting references', split, mods=('pyswagger',))

    def split_local(s):
        ptr = s.cat('#/', name(s, 'a'))
        w = s.choice('reference', 'pointer', 'path', 'path and pointer')
        f = s.cat('/', name(s, 'd'), '/', name(s, 'f'), '.json')
        r = s.items(call(s, 'jr_split', {'pointer': ptr, 'path': f, 'path and pointer': s.cat(f, ptr)}[w]))
        s.same_ob(r[0], '' if w == 'pointer' else call(s, 'path2url', f), 'split', 'the document of a local reference')
        s.same_ob(r[1], '#' if w == 'path' else ptr, 'split', 'the pointer of a local reference')
    run.explore('splitting local references', split_local, mods=('pyswagger',))

    def within(s):
        """pointers and absolute references"""
        d = folder(s)
        u, mk = shape(s, s.cat(d, '/', name(s, 'f'), '.json'))
        ptr = s.cat('#/', name(s, 'a'), '/', name(s, 'b'))
        w = s.choice('reference', 'pointer', 'absolute', 'absolute and pointer', 'pointer without document')
        if w == 'pointer':
            s.same_ob(call(s, 'normalize_jr', ptr, u), s.cat(u, ptr), 'reference', 'a pointer')
        elif w == 'pointer without document':
            s.same_ob(call(s, 'normalize_jr', ptr), ptr, 'reference', 'a pointer without document')
            s.check(s.R(call(s, 'normalize_jr', None, u)) is None and s.R(call(s, 'normalize_jr', None)) is None, 'reference', 'no reference is not kept')
        else:
            o = s.cat('https://', name(s, 'other'), '/', name(s, 'o'), '.json?', name(s, 'oq'), '=1', ptr if 'pointer' in w else '')
            s.same_ob(call(s, 'normalize_jr', o, u), o, 'reference', 'an absolute reference')
            s.same_ob(call(s, 'normalize_jr', o), o, 'reference', 'an absolute reference without document')
    run.explore('pointers and absolute references', within, mods=('pyswagger',))

    def relative(s):
        d = folder(s)
        u, mk = shape(s, s.cat(d, '/', name(s, 'f'), '.json'), queries=False)
        x, y = name(s, 'x'), name(s, 'y')
        ptr = s.cat('#/', name(s, 'a')) if s.choice('pointer', 'no', 'yes') == 'yes' else ''
        w = s.choice('path', 'file', 'folder', './', '../', '../../', 'x/../', 'x/./')
        rel = {'file': y, 'folder': s.cat(x, '/', y), './': s.cat('./', y), '../': s.cat('../', y), '../../': s.cat('../../', y), 'x/../': s.cat(x, '/../', y), 'x/./': s.cat(x, '/./', y)}[w]
        ds = [a for a in [s.I.R(d)] if a != '']
        parts = [] if d == '' else [a for a in (s.I.R(d).args if isinstance(s.I.R(d), Term) and s.I.R(d).op == 'cat' else [d]) if a != '/']
        up = {'../': 1, '../../': 2}.get(w, 0)
        parts = parts[:max(0, len(parts) - up)]
        if w in ('folder', 'x/./'):
            parts.append(x)
        want = mk(s.cat(*([z for p in parts for z in ('/', p)] + ['/', y, '.json'])))
        s.same_ob(call(s, 'normalize_jr', s.cat(rel, '.json', ptr), u), s.cat(want, ptr), 'reference', 'the reference %s' % w)
    run.explore('relative references', relative, mods=('pyswagger',))

    def dots(s):
        """dots in paths"""
        x, y, z = name(s, 'x'), name(s, 'y'), name(s, 'z')
        cases = {'none': ([x, y], [x, y]), 'here': ([x, '.', y], [x, y]), 'up': ([x, '..', y], [y]), 'up twice': ([x, y, '..', '..', z], [z]), 'beyond the root': (['..', y], [y]), 'far beyond': ([x, '..', '..', y], [y]),
                 'at the end': ([x, y, '.'], [x, y]), 'a folder': ([x, y, ''], [x, y, '']), 'dots in names': ([s.cat(x, '..'), s.cat('.', y), s.cat('..', z)], [s.cat(x, '..'), s.cat('.', y), s.cat('..', z)]),
                 'mixed': ([x, '.', '..', y, z, '..', x], [y, x])}
        p, q = cases[s.choice('path', *sorted(cases))]
        mkp = lambda l: s.cat(*[a for c in l for a in ('/', c)])
        u, mk = shape(s, mkp(p), frag=s.choice('fragment', 'no', 'yes') == 'yes')
        s.same_ob(call(s, 'derelativise_url', u), mk(mkp(q)), 'dots', 'the url without dots')
        s.same_ob(call(s, 'derelativise_url', mk(mkp(q))), mk(mkp(q)), 'dots', 'a url without dots')
    run.explore('dots', dots, mods=('pyswagger',))

    # files ----------------------------------------------------------------------------------------------
    def patched(s):
        """the path of a file: the own extension, then the one of the base, then .json"""
        b = s.choice('extension of the base', *(EXTS + ('', '.xml', '.1')))
        e = s.choice('extension', *(EXTS + ('', '.xml', '.1', '.geojson')))
        base, p = s.cat('/', name(s, 'd'), '/', name(s, 'b'), b), s.cat('/', name(s, 'd'), '/', name(s, 'f'), e)
        want = p if e in EXTS else s.cat(p, b if b in EXTS else '.json')
        s.same_ob(call(s, 'patch_path', base, p), want, 'file', 'the file of %s below %s' % (show(p), show(base)))
    run.explore('extensions of files', patched, mods=('pyswagger',))

    def normal(s):
        u, mk = shape(s, s.cat(folder(s), '/', name(s, 'f'), s.choice('extension', '', '.json')), frag=s.choice('fragment', 'no', 'yes') == 'yes')
        s.same_ob(call(s, 'normalize_url', u), u, 'normal', 'a complete url')
        p = s.cat('/', name(s, 'd'), s.choice('blank', '', ' '), s.cat('/', name(s, 'f'), s.choice('end', '', '/')))
        n = call(s, 'normalize_url', p)
        s.same_ob(n, call(s, 'path2url', call_abspath(s, p)), 'normal', 'a path')
        s.same_ob(call(s, 'normalize_url', n), n, 'normal', 'a normalised path')
        s.check(s.R(call(s, 'normalize_url', None)) is None, 'normal', 'no url is not kept')
        s.same_ob(call(s, 'normalize_url', ''), '', 'normal', 'an empty url')
    run.explore('normal urls', normal, mods=('pyswagger',))

    def agreement(s):
        """what the file names and extensions of the tables are is what getters and helpers take for documents"""
        valid = [s.I.U(s.R(x)) for x in s.items(s.attr(s.get('pyswagger.consts.private'), 'VALID_FILE_EXT'))]
        names = [s.I.U(s.R(x)) for x in s.items(s.attr(s.get('pyswagger.consts.private'), 'SWAGGER_FILE_NAMES'))]
        s.check(set(valid) == set(EXTS), 'tables', lambda: 'the supported extensions are %s' % ', '.join(valid))
        s.check(all(any(n.endswith(e) for e in EXTS) for n in names), 'tables', lambda: 'a well-known name has an unsupported extension: %s' % ', '.join(names))
        e = s.choice('extension', *(EXTS + ('.xml', '.geojson')))
        f = name(s, 'f')
        text = '{"swagger": "2.0"}'
        p = s.cat('/d/', f, e)
        storage(s, files=[(p, text)])
        g = s.call('pyswagger.getter:LocalGetter', p if s.choice('given', 'path', 'url') == 'path' else s.cat('file://', p))
        o = s.meth(g.value, '__next__') if g.ok else g
        s.check(o.ok == (e in EXTS), 'tables', lambda: 'the file *%s is %s by LocalGetter: %r' % (e, 'read' if o.ok else 'not found', o), o.site)
        u = s.cat('http://h.com/d/', f, e)
        s.same_ob(call(s, 'url_dirname', u), 'http://h.com/d' if e in EXTS else u, 'tables', 'the folder of *%s' % e)
    run.explore('tables', agreement, mods=('pyswagger',))

    def guessed(s):
        """a path without extension is the file with a supported one"""
        e = s.choice('extension', *(EXTS + ('.xml',)))
        b = s.choice('base', '', '.1', '.geojson')
        p = s.cat('/d/', name(s, 'f'), b)
        storage(s, files=[(s.cat(p, e), '{"swagger": "2.0"}')])
        g = s.call('pyswagger.getter:LocalGetter', p)
        if e not in EXTS:
            s.check(g.is_exc('ValueError'), 'tables', lambda: 'a file *%s is taken for a document: %r' % (e, g), g.site)
            return
        o = s.meth(g.value, '__next__') if g.ok else g
        s.check(o.ok, 'tables', lambda: 'the file *%s%s is not found by its name without %s: %r' % (b, e, e, o), o.site)
    run.explore('files without extension', guessed, mods=('pyswagger',))


def call_abspath(s, p):
    return s.I.call_ext('os.path.abspath', [p], {})
