"""References.  Every place of a 2.0 document that may hold a reference (places of C18 for Schema, Parameter, Response, PathItem),
in the root document and in documents reached from it; every form of reference (local pointer, file next to it, sub folder,
. and .., absolute URL, whole document) from root documents at different depths, folder and pointer names being generic.
The normalised $ref is the one RFC 3986 gives, schemas are linked to the object there - told apart from decoys of the same name
in every other document - and only the documents named are fetched."""
from .common import *
from .c18 import Version, put, walk

KIND = {'Schema': 'definitions', 'Parameter': 'parameters', 'Response': 'responses', 'PathItem': 'paths'}


def obj(kind, x):
    """an object of the kind that says x"""
    return {'Schema': {'type': 'string', 'description': x}, 'Parameter': {'name': 'p', 'in': 'query', 'type': 'string', 'description': x},
            'Response': {'description': x}, 'PathItem': {'get': {'summary': x, 'responses': resp()}}}[kind]


def says(s, kind, o):
    """what the object, as the library uses it, says"""
    if kind == 'Schema':
        return s.attr(s.must('pyswagger.utils:deref', o), 'description')
    if kind == 'PathItem':
        g = s.attr(o, 'get')
        return None if s.R(g) is None else s.attr(g, 'summary')
    return s.attr(s.must('pyswagger.utils:final', o), 'description')


def pointer(kind, n):
    return '#/%s/%s' % (KIND[kind], '~1' + n if kind == 'PathItem' else n)


def join(s, base, ref):
    """the specified result, over lists of path segments: base ('http', 'h.com', segs), ref (kind, segs)"""
    how, segs = ref
    if how == 'absolute':
        return ('http', 'o.com', list(segs))
    out = list(base[2][:-1])
    for x in segs:
        if isinstance(x, str) and x == '.':
            continue
        if isinstance(x, str) and x == '..':
            out = out[:-1]
        else:
            out.append(x)
    return (base[0], base[1], out)


def url(s, u):
    v = u[0] + '://' + u[1]
    for x in u[2]:
        v = s.cat(v, '/', x)
    return v


def text(s, segs):
    v = segs[0]
    for x in segs[1:]:
        v = s.cat(v, '/', x)
    return v


FORMS = [('next to it', ['F']), ('dot', ['.', 'F']), ('sub folder', ['D', 'F']), ('parent', ['..', 'F']), ('parent and sub folder', ['..', 'D', 'F']),
         ('grand parent', ['..', '..', 'F']), ('folder and back', ['D', '..', 'F']), ('dots inside', ['D', '.', 'F']), ('above the root', ['..', '..', '..', '..', 'F']),
         ('two folders and back', ['D', 'E', '..', 'F']), ('dotted name', ['.D', 'F'])]
BASES = [('root folder', 'http', ['swagger.json']), ('folder', 'http', ['B', 'swagger.json']), ('deep folder', 'https', ['B', 'C', 'api.yaml']),
         ('no extension', 'http', ['B', 'docs']), ('file', 'file', ['B', 'C', 'swagger.json'])]


def form(s, forms=FORMS):
    label, segs = s.choice('reference', *forms)
    names = {'D': name(s, 'd'), 'E': name(s, 'e'), 'F': s.cat(name(s, 'f'), s.choice('extension', '.json', '.yml', '')) if len(segs) == 1 else s.cat(name(s, 'f'), '.json')}
    return [s.cat('.', names['D']) if x == '.D' else names.get(x, x) for x in segs]


def base(s):
    label, scheme, segs = s.choice('base', *BASES)
    names = {'B': name(s, 'b'), 'C': name(s, 'c')}
    return (scheme, '' if scheme == 'file' else 'h.com', [names.get(x, x) for x in segs])


def check(run):
    def helper(s):
        b = base(s)
        how = s.choice('how', 'relative', 'absolute')
        segs = form(s) if how == 'relative' else [name(s, 'd'), s.cat(name(s, 'f'), '.json')]
        at = s.choice('pointer', None, 1, 2)
        toks = [name(s, 'p%d' % i) for i in range(at or 0)]
        frag = ''
        for t in toks:
            frag = s.cat(frag, '/', t)
        if at:
            frag = s.cat('#', frag)
        want = join(s, b, (how, segs))
        r = s.cat(text(s, segs) if how == 'relative' else url(s, want), frag)
        o = s.call('pyswagger.utils:normalize_jr', r, url(s, b))
        s.check(o.ok, 'accept', lambda: '%r' % (o,), o.site)
        s.same_ob(o.value, s.cat(url(s, want), frag), 'location', 'normal form of %s in %s' % (show(r), show(url(s, b))))
        # a normal form is left alone
        o = s.call('pyswagger.utils:normalize_jr', o.value, url(s, b))
        s.same_ob(o.value, s.cat(url(s, want), frag), 'idempotent', 'normal form of a normal form')
    by_folder(run)
    run.explore('locations', helper)

    def local(s):
        b = base(s)
        toks = [name(s, 'p%d' % i) for i in range(s.choice('tokens', 1, 2, 3))]
        frag = '#'
        for t in toks:
            frag = s.cat(frag, '/', t)
        o = s.call('pyswagger.utils:normalize_jr', frag, url(s, b))
        s.check(o.ok, 'accept', lambda: '%r' % (o,), o.site)
        s.same_ob(o.value, s.cat(url(s, b), frag), 'location', 'normal form of a local reference')
        o = s.call('pyswagger.utils:normalize_jr', None, url(s, b))
        s.check(o.ok and o.value is None, 'absent', lambda: 'no reference: %r' % (o,))
    run.explore('local references', local)
    for kind in KIND:
        forms(run, kind)
        everywhere(run, kind)


def forms(run, kind):
    """a reference of every form links to the object in the document it names"""
    def body(s):
        b = base(s)
        if b[0] == 'file':
            raise Skip()
        how = s.choice('how', 'local', 'relative', 'absolute')
        x = s.token('x')
        n = name(s, 'n')
        segs = None
        if how == 'local':
            want = b
        else:
            segs = form(s, FORMS if run.tier == 'thorough' else FORMS[:7]) if how == 'relative' else [name(s, 'd'), s.cat(name(s, 'f'), '.json')]
            want = join(s, b, (how, segs))
        root, other = doc({}), doc({})
        ptr = s.cat('#/%s/' % KIND[kind], '~1' if kind == 'PathItem' else '', n)
        key = s.cat('/', n) if kind == 'PathItem' else n
        tgt = root if how == 'local' else other
        tgt[KIND[kind]] = {key: obj(kind, x)}
        if how != 'local':
            root.setdefault(KIND[kind], {})[key] = obj(kind, s.token('decoy'))
        r = ptr if how == 'local' else s.cat(text(s, segs) if how == 'relative' else url(s, want), ptr)
        use = {'$ref': r}
        if kind == 'PathItem':
            root['paths']['/use'] = use
        elif kind == 'Schema':
            root['definitions']['Use'] = use
        else:
            o = {'responses': resp()}
            o['parameters' if kind == 'Parameter' else 'responses'] = [use] if kind == 'Parameter' else {'200': use}
            root['paths']['/use'] = {'get': o}
        app = app_in(s, [(url(s, b), root), (url(s, want), other)])
        ro = s.attr(app, 'root')
        if kind == 'Schema':
            u = s.item(s.attr(ro, 'definitions'), 'Use')
        else:
            u = s.item(s.attr(ro, 'paths'), '/use')
            if kind == 'Parameter':
                u = s.item(s.attr(s.attr(u, 'get'), 'parameters'), 0)
            elif kind == 'Response':
                u = s.item(s.attr(s.attr(u, 'get'), 'responses'), '200')
        s.same_ob(s.attr(u, '$ref'), s.cat(url(s, want), ptr), 'location', 'normal form of %s in %s' % (show(r), show(url(s, b))))
        s.same_ob(says(s, kind, u), x, 'target', 'description of the %s that %s in %s refers to' % (kind, show(r), show(url(s, b))))
        for e in s.events('fetch'):
            s.check(s.same(e.args[0], url(s, b)) or s.same(e.args[0], url(s, want)), 'fetched', lambda: 'fetches %s' % show(e.args[0]))
    run.explore('%s, forms of references' % kind, body)


def everywhere(run, kind):
    """each place that may hold a reference, in the root document and in a document reached from it"""
    v = Version('2.0')
    places = [p for p in v.places[kind] if not (kind == 'PathItem' and len(p) > 2)]
    # places below a Schema, and those below a Parameter or Response that the tree of kinds lists only once
    more = {'Schema': [('definitions', 'S', 'properties', 'q', 'items'), ('definitions', 'S', 'allOf', 0, 'properties', 'q'), ('definitions', 'S', 'items', 'additionalProperties'),
                       ('paths', '/k', 'get', 'responses', '200', 'schema', 'items'), ('paths', '/k', 'post', 'parameters', 0, 'schema'),
                       ('paths', '/k', 'parameters', 0, 'schema', 'properties', 'q'), ('responses', 'R', 'schema'), ('parameters', 'P', 'schema', 'allOf', 0)],
            'Parameter': [('paths', '/k', m, 'parameters', 0) for m in ('put', 'delete', 'patch', 'head', 'options')],
            'Response': [('paths', '/k', m, 'responses', 'default') for m in ('put', 'post', 'delete', 'patch', 'head', 'options')],
            'PathItem': []}[kind]
    places = [tuple({'K': '/k' if i and p[i - 1] == 'paths' else '200' if i and p[i - 1] == 'responses' and len(p) > 3 else 'K'}.get(t, t) for i, t in enumerate(p)) for p in places]
    places = sorted(set(places + more), key=repr)

    def fill(d, path):
        """what the objects around the place need to be complete"""
        cur = d
        for i, t in enumerate(path[:-1]):
            cur = cur[t]
            nxt = path[i + 1]
            if isinstance(cur, dict) and nxt in ('schema', 'items') and (path[i - 1] == 'parameters' or t == 'P'):
                cur.update({'name': 'b', 'in': 'body'})
            if isinstance(cur, dict) and nxt == 'schema' and path[i - 1] == 'responses':
                cur.update({'description': 'd'})
        return d
    for path in places:
        def body(s, path=path):
            where = s.choice('in', 'root', 'other', 'third')
            how = s.choice('how', 'local', 'other document', 'back to the root')
            x = s.token('x')
            here = {'root': URL, 'other': 'http://h.com/sub/other.json', 'third': 'http://h.com/third.json'}[where]
            there = {'local': here, 'other document': 'http://h.com/sub/fourth.json', 'back to the root': URL}[how]
            if where == 'root' and how == 'back to the root':
                raise Skip()
            if where != 'root' and path[0] in ('responses', 'parameters', 'definitions') and False:
                raise Skip()
            docs = {}
            for u in (URL, 'http://h.com/sub/other.json', 'http://h.com/third.json', 'http://h.com/sub/fourth.json'):
                docs[u] = doc({})
                docs[u].setdefault(KIND[kind], {})[{'PathItem': '/t'}.get(kind, 'T')] = obj(kind, x if u == there else s.token('decoy of ' + u.rsplit('/', 1)[1]))
            rel = {('http://h.com/swagger.json', 'http://h.com/sub/fourth.json'): 'sub/fourth.json', ('http://h.com/sub/other.json', 'http://h.com/sub/fourth.json'): 'fourth.json',
                   ('http://h.com/third.json', 'http://h.com/sub/fourth.json'): './sub/fourth.json', ('http://h.com/sub/other.json', URL): '../swagger.json',
                   ('http://h.com/third.json', URL): 'swagger.json'}.get((here, there), '')
            ptr = pointer(kind, 't' if kind == 'PathItem' else 'T')
            put(docs[here], path, {'$ref': rel + ptr})
            fill(docs[here], path)
            top = path[:2]
            if where != 'root':
                # reach the object that holds the reference from the root: through the path item, or the named object
                hold = {'paths': 'PathItem', 'definitions': 'Schema', 'parameters': 'Parameter', 'responses': 'Response'}[path[0]]
                hp = '#/%s/%s' % (path[0], path[1].replace('/', '~1'))
                if where == 'third':
                    mid = docs['http://h.com/sub/other.json']
                    mk = {'PathItem': '/mid'}.get(hold, 'Mid')
                    mid.setdefault(path[0], {})[mk] = {'$ref': '../third.json' + hp}
                    hp = '#/%s/%s' % (path[0], mk.replace('/', '~1'))
                use = {'$ref': 'sub/other.json' + hp}
                root = docs[URL]
                if hold == 'PathItem':
                    root['paths']['/hold'] = use
                elif hold == 'Schema':
                    root['definitions'] = dict(root.get('definitions', {}), Hold=use)
                elif hold == 'Parameter':
                    root['paths']['/hold'] = {'get': {'parameters': [use], 'responses': resp()}}
                else:
                    root['paths']['/hold'] = {'get': {'responses': {'200': use}}}
            app = app_in(s, list(docs.items()))
            if len(path) <= 2 and where != 'root':
                # the reference is the named object itself
                pass
            r = s.must(s.attr(app, 'resolve'), here + '#/%s/%s' % (path[0], path[1].replace('/', '~1')), s.get('pyswagger.spec.v2_0.parser:%sContext' % {
                'paths': 'PathItem', 'definitions': 'Schema', 'parameters': 'Parameter', 'responses': 'Response'}[path[0]]))
            o = walk(s, r, path[2:])
            s.same_ob(s.attr(o, '$ref'), there + ptr, 'location', 'normal form of the reference at %s in %s' % ('.'.join(map(str, path)), here))
            if kind == 'Schema':
                s.check(s.R(s.attr(o, 'ref_obj')) is not None, 'linked', lambda: 'the schema at %s in %s is not linked' % ('.'.join(map(str, path)), here))
                s.same_ob(says(s, kind, o), x, 'target', 'the schema at %s in %s' % ('.'.join(map(str, path)), here))
            elif where == 'root':
                s.same_ob(says(s, kind, o), x, 'target', 'the %s at %s' % (kind, '.'.join(map(str, path))))
            if where != 'root':
                # what the root sees through its own reference
                ro = s.attr(app, 'root')
                if path[0] == 'paths':
                    h = s.item(s.attr(ro, 'paths'), '/hold')
                elif path[0] == 'definitions':
                    h = s.must('pyswagger.utils:deref', s.item(s.attr(ro, 'definitions'), 'Hold'))
                else:
                    op = s.attr(s.item(s.attr(ro, 'paths'), '/hold'), 'get')
                    h = s.must('pyswagger.utils:final', s.item(s.attr(op, 'parameters'), 0) if path[0] == 'parameters' else s.item(s.attr(op, 'responses'), '200'))
                if path[2:]:
                    s.same_ob(says(s, kind, walk(s, h, path[2:])), x, 'target', 'the %s at %s in %s, reached from the root' % (kind, '.'.join(map(str, path)), here))
                else:
                    got = s.attr(h, 'description') if kind != 'PathItem' else s.attr(s.attr(h, 'get'), 'summary')
                    s.same_ob(got, x, 'target', 'the %s at %s in %s, reached from the root' % (kind, '.'.join(map(str, path)), here))
        run.explore('%s at %s' % (kind, '.'.join(map(str, path))), body)


def by_folder(run):
    def body(s):
        d = '/p/d'
        storage(s, [(s.cat(d, '/swagger.json'), '{"swagger": "2.0", "paths": {}, "definitions": {"A": {"$ref": "other.json#/B"}}}'),
                    (s.cat(d, '/other.json'), '{"B": {"type": "string"}}')])
        app = s.must(s.attr(s.get('pyswagger.core:App'), 'load'), d)
        o = s.meth(app, 'prepare')
        s.check(o.ok, 'location', lambda: 'references of a document loaded by its folder are relative to the parent of the folder: %r' % (o,), o.site)
    run.explore('loaded by folder', body)
