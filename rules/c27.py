"""Circles.  utils.walk on every directed graph of up to three vertices; documents whose schemas, parameters, responses and
path items refer to each other along every such graph and every kind of place, within one document and across two, against
the elementary circles computed from the graph; loading, preparing, resolving, traversing, calling and producing finite values
have to end (running out of the analyser's loop or recursion bound, far above what finite inputs need, is a violation)."""
import itertools

from .common import *

STR = {'type': 'string'}
OTHER = 'http://h.com/other.json'


def elementary(g):
    """the elementary circles of a graph (vertex -> successors), each rotated to its smallest vertex, closed"""
    out = set()

    def go(path):
        for n in g.get(path[-1], ()):
            if n == path[0]:
                out.add(tuple(path) + (n,))
            elif n not in path and n > path[0]:
                go(path + [n])
    for v in g:
        go([v])
    return out


def reach(g, starts):
    seen, todo = set(), list(starts)
    while todo:
        v = todo.pop()
        if v not in seen:
            seen.add(v)
            todo.extend(g.get(v, ()))
    return {k: v for k, v in g.items() if k in seen}


def check(run):
    run.ends = True
    graphs(run)
    schemas(run)
    mixed(run)
    others(run)
    behind(run)
    values(run)
    old(run)
    guards(run)


def graphs(run):
    """utils.walk"""
    n = 3
    vs = 'abc'
    pairs = [(i, j) for i in vs for j in vs]
    for part in range(8):
        def body(s, part=part):
            walk = s.get('pyswagger.utils:walk')
            for bits in range(part, 1 << len(pairs), 8):
                g = {v: [] for v in vs}
                for k, (i, j) in enumerate(pairs):
                    if bits >> k & 1:
                        g[i].append(j)
                if bits % 3 == 1:
                    g = {k: v[::-1] for k, v in g.items()}
                if bits % 5 == 2:
                    g = {k: v + v[:1] for k, v in g.items()}
                out = s.fn('out', lambda I, a, k: s.list(*g[a[0]]))
                cyc = None
                for start in vs:
                    o = s.must(walk, start, out)
                    got = [tuple(plain(s, x)) for x in s.items(o)]
                    want = elementary(reach(g, [start]))
                    s.check(len(got) == len(set(got)) and set(got) == want, 'circles', lambda: 'walk from %s over %s reports %s, the elementary circles are %s' % (start, g, sorted(got), sorted(want)))
                    cyc = s.must(walk, start, out, cyc) if cyc is not None else s.must(walk, start, out)
                got = [tuple(plain(s, x)) for x in s.items(cyc)]
                s.check(len(got) == len(set(got)) and set(got) == elementary(g), 'circles', lambda: 'walks from every vertex over %s report %s, the elementary circles are %s' % (g, sorted(got), sorted(elementary(g))))
        run.explore('graphs of three vertices %d' % part, body)


KINDS = ('properties', 'items', 'allOf', 'additionalProperties', 'deep')


def schema(edges, x):
    """a schema with these (kind, reference) edges"""
    d = {'type': 'object', 'description': x}
    for i, (k, r) in enumerate(edges):
        r = {'$ref': r}
        if k == '$ref':
            return r
        if k == 'properties':
            d.setdefault('properties', {})['p%d' % i] = r
        elif k == 'items':
            d['items'] = r
        elif k == 'allOf':
            d.setdefault('allOf', []).append(r)
        elif k == 'additionalProperties':
            d['additionalProperties'] = r
        else:
            d.setdefault('properties', {})['d%d' % i] = {'type': 'array', 'items': {'type': 'object', 'properties': {'x': r}}}
    return d


def detected(s, app, kind='schema'):
    """the circles that the library reports"""
    c = s.must('pyswagger.scanner:CycleDetector')
    sc = s.must('pyswagger.scan:Scanner', app)
    s.must(s.attr(sc, 'scan'), root=s.attr(app, 'raw'), route=s.list(c))
    return [tuple(plain(s, x)) for x in s.items(s.item(s.attr(c, 'cycles'), kind))]


def verdict(s, docs, want, what, app=None):
    """strict mode raises exactly when there are circles, and they are reported each once"""
    app = app_in(s, docs, prepare=False)
    o = s.meth(app, 'prepare')
    if want:
        s.check(o.is_exc('CycleDetectionError'), 'strict', lambda: '%s in strict mode: %r, specified CycleDetectionError' % (what, o), o.site)
    else:
        s.check(o.ok, 'strict', lambda: '%s in strict mode: %r' % (what, o), o.site)
    if want:
        app = app_in(s, docs, prepare=False)
        o = s.meth(app, 'prepare', False)
        s.check(o.ok, 'accept', lambda: '%s without strict mode: %r' % (what, o), o.site)
    got = detected(s, app)
    s.check(len(got) == len(set(got)) and set(got) == want, 'circles', lambda: '%s: reported %s, the elementary circles are %s' % (what, sorted(got), sorted(want)))
    return app


def use(s, app, n):
    """resolving and producing end"""
    o = s.meth(app, 'resolve', '#/definitions/' + n)
    s.check(o.ok, 'resolve', lambda: '%r' % (o,), o.site)
    v = s.obj({'p0': {'p0': {'p0': {}}}, 'p1': {}, 'x': [{'p0': {}}]})
    prim = s.attr(app, 'prim_factory')
    s.call(s.attr(prim, 'produce'), schema_of(s, app, n), v)
    s.call(s.attr(prim, 'produce'), schema_of(s, app, n), s.obj([{'p0': {}}, [[]]]))
    s.call('pyswagger.utils:deref', schema_of(s, app, n))
    s.call('pyswagger.utils:final', schema_of(s, app, n))


def schemas(run):
    """two definitions, every way to refer from each to each"""
    opts = (None, '$ref') + KINDS
    for ab in opts:
        for ba in opts:
            def body(s, ab=ab, ba=ba):
                aa = s.choice('A to A', *(opts if run.tier != 'quick' else (None, '$ref', 'items', 'deep'))) if ab != '$ref' else None
                bb = s.choice('B to B', *(opts if run.tier != 'quick' else (None, '$ref', 'properties'))) if ba != '$ref' else None
                if aa == '$ref' and ab or bb == '$ref' and ba or ab in ('items', 'additionalProperties') and aa == ab or ba in ('items', 'additionalProperties') and bb == ba:
                    raise Skip()
                where = s.choice('B is in', 'the document', 'another one') if run.tier != 'quick' or (aa, bb) == (None, None) else 'the document'
                P = {'A': URL + '#/definitions/A', 'B': (URL if where == 'the document' else OTHER) + '#/definitions/B'}
                defs = {'A': schema([(k, r) for k, r in ((ab, P['B']), (aa, '#/definitions/A')) if k], s.token('a')),
                        'B': schema([(k, r) for k, r in ((ba, P['A']), (bb, '#/definitions/B')) if k], s.token('b'))}
                g = {P['A']: [P[t] for k, t in ((ab, 'B'), (aa, 'A')) if k], P['B']: [P[t] for k, t in ((ba, 'A'), (bb, 'B')) if k]}
                if where == 'the document':
                    docs = [(URL, doc({}, definitions=defs))]
                    want = elementary(g)
                else:
                    docs = [(URL, doc({}, definitions={'A': defs['A']})), (OTHER, {'definitions': {'B': defs['B']}})]
                    want = elementary(reach(g, [P['A']]))
                app = verdict(s, docs, want, 'definitions A -%s-> B -%s-> A, A -%s-> A, B -%s-> B, B in %s' % (ab, ba, aa, bb, where))
                use(s, app, 'A')
            run.explore('A -%s- B -%s- A' % (ab, ba), body)


def mixed(run):
    """three definitions, references into and out of nested schemas, several circles at once"""
    def ring(s, first):
        quick = run.tier == 'quick'
        ks = [first] + [s.choice('kind %d' % i, *(('$ref', 'properties', 'allOf') if quick else ('$ref',) + KINDS)) for i in (1, 2)]
        names = s.choice('names', *(('ABC', 'CBA') if quick else ('ABC', 'CBA', 'BCA')))
        closed = s.choice('closed', True, False)
        p = lambda n: '#/definitions/' + n
        defs = {}
        for i, n in enumerate(names):
            e = [(ks[i], p(names[(i + 1) % 3]))] if i < 2 or closed else []
            defs[n] = schema(e, 'x')
        u = lambda n: URL + p(n)
        g = {u(n): [u(names[(i + 1) % 3])] if i < 2 or closed else [] for i, n in enumerate(names)}
        app = verdict(s, [(URL, doc({}, definitions=defs))], elementary(g), 'three definitions %s' % (ks,))
        use(s, app, names[0])
    for k in ('$ref', 'properties', 'allOf', 'deep') if run.tier == 'quick' else ('$ref',) + KINDS:
        run.explore('rings of three by %s' % k, lambda s, k=k: ring(s, k))

    def nested(s):
        R = lambda t: {'$ref': '#/definitions/' + t}
        cases = [
            ('shared twice', {'A': {'properties': {'x': R('B'), 'y': R('B')}}, 'B': {'properties': {'x': R('A')}}}, [['A', 'B', 'A']]),
            ('two rings', {'A': {'properties': {'x': R('B')}}, 'B': {'properties': {'x': R('A')}}, 'C': {'items': R('C')}}, [['A', 'B', 'A'], ['C', 'C']]),
            ('figure of eight', {'A': {'properties': {'x': R('B'), 'y': R('C')}}, 'B': {'properties': {'x': R('A')}}, 'C': {'items': R('A')}}, [['A', 'B', 'A'], ['A', 'C', 'A']]),
            ('complete', {a: {'properties': {b: R(b) for b in 'ABC' if b != a}} for a in 'ABC'}, [['A', 'B', 'A'], ['A', 'C', 'A'], ['B', 'C', 'B'], ['A', 'B', 'C', 'A'], ['A', 'C', 'B', 'A']]),
            ('tail', {'A': R('B'), 'B': R('C'), 'C': {'items': R('B')}}, [['B', 'C', 'B']]),
            ('tree', {'A': {'properties': {'x': R('B'), 'y': R('C')}}, 'B': R('C'), 'C': {}}, []),
            ('into nested', {'A': {'properties': {'x': {'items': R('B')}}}, 'B': {'items': R('A/properties/x')}}, [['A/properties/x', 'B', 'A/properties/x']]),
            ('nested to ancestor', {'A': {'properties': {'x': {'properties': {'y': {'items': R('A')}}}}}}, [['A', 'A']]),
            ('siblings', {'A': {'properties': {'x': R('A/properties/y'), 'y': {'type': 'string'}}}}, []),
            ('nested to itself', {'A': {'properties': {'x': {'items': R('A/properties/x')}}}}, [['A/properties/x', 'A/properties/x']]),
            ('in items of allOf', {'A': {'allOf': [{'items': {'allOf': [R('A')]}}]}}, [['A', 'A']]),
        ]
        nm, defs, want = s.choice('case', *cases)
        want = {tuple(URL + '#/definitions/' + v for v in c) for c in want}
        app = verdict(s, [(URL, doc({}, definitions=defs))], want, 'definitions (%s)' % nm)
        for n in defs:
            use(s, app, n)
    run.explore('nested schemas', nested)


def others(run):
    """parameters, responses and path items"""
    for k, sec, pre in (('parameter', 'parameters', ''), ('response', 'responses', ''), ('path_item', 'paths', '~1')):
        def body(s, k=k, sec=sec, pre=pre):
            n = s.choice('steps', 1, 2, 3)
            close = s.choice('back to', *range(-1, n))
            names = s.choice('order', list('abc'[:n]), list('abc'[:n])[::-1])
            ptr = lambda x: '#/%s/%s%s' % (sec, pre, x)
            last = {'parameter': {'name': 'p', 'in': 'query', 'type': 'string'}, 'response': {'description': 'd'}, 'path_item': {'get': {'responses': resp()}}}[k]
            d = doc({'/q': {'get': {'operationId': 'o', 'responses': {'200': {'$ref': ptr(names[0])}} if k == 'response' else resp(), 'parameters': [{'$ref': ptr(names[0])}] if k == 'parameter' else []}}})
            if k == 'path_item':
                d['paths']['/r'] = {'$ref': ptr(names[0])}
            for i, x in enumerate(names):
                t = names[i + 1] if i + 1 < n else names[close] if close >= 0 else None
                d.setdefault(sec, {})[('/' if pre else '') + x] = {'$ref': ptr(t)} if t else last
            app = app_in(s, [(URL, d)], prepare=False)
            o = s.meth(app, 'prepare', s.choice('strict', True, False))
            s.check(o.ok, 'accept', lambda: 'a circle of %ss: %r' % (k, o), o.site)
            ring = names[close:] if close >= 0 else []
            g = {URL + ptr(x): [URL + ptr(ring[(i + 1) % len(ring)])] for i, x in enumerate(ring)}
            got = detected(s, app, k)
            s.check(len(got) == len(set(got)) and set(got) == elementary(g), 'circles', lambda: 'reported %s, specified %s' % (got, elementary(g)))
            s.check(not detected(s, app), 'circles', 'a circle of %ss is reported as one of schemas' % k)
            s.call(op_of(s, app, 'o'))
            s.meth(app, 'resolve', ptr(names[0]))
        run.explore('circles of %ss' % k, body)


def behind(run):
    """schema circles that only other kinds of references lead to"""
    def body(s):
        where = s.choice('circle in', URL, OTHER)
        at = s.choice('reached by', 'body', 'response', 'parameter by reference', 'response by reference', 'path item by reference', 'shared parameter', 'shared response', 'path item parameter',
                      'two references')
        ringed = s.choice('circle', True, False)
        ring = {'S': {'type': 'object', 'properties': {'t': {'$ref': '#/definitions/T'}}}, 'T': {'type': 'object', 'properties': {'s': {'$ref': '#/definitions/S'} if ringed else STR}}}
        pre = '' if where == URL else 'other.json'
        R = {'$ref': pre + '#/definitions/S'}
        P, Q = {'name': 'p', 'in': 'body', 'schema': R}, {'description': 'd', 'schema': R}
        op = {'operationId': 'o', 'responses': resp()}
        it = {'get': op}
        root, oth = doc({'/a': it}), {}
        tgt = root if where == URL else oth
        tgt['definitions'] = ring
        L = {'$ref': '#/definitions/S'}
        if at == 'body':
            op['parameters'] = [P]
        elif at == 'response':
            op['responses'] = {'200': Q}
        elif at == 'path item parameter':
            it['parameters'] = [P]
        elif at == 'shared parameter':
            root['parameters'] = {'x': P}
        elif at == 'shared response':
            root['responses'] = {'x': Q}
        elif at == 'parameter by reference':
            tgt['parameters'] = {'x': dict(P, schema=L)}
            op['parameters'] = [{'$ref': pre + '#/parameters/x'}]
        elif at == 'response by reference':
            tgt['responses'] = {'x': dict(Q, schema=L)}
            op['responses'] = {'200': {'$ref': pre + '#/responses/x'}}
        elif at == 'two references':
            tgt['responses'] = {'x': {'$ref': '#/responses/y'}, 'y': {'description': 'd', 'schema': {'type': 'array', 'items': L}}}
            op['responses'] = {'200': {'$ref': pre + '#/responses/x'}}
        else:
            tgt.setdefault('paths', {})['/x'] = {'put': {'responses': {'200': dict(Q, schema=L)}}}
            root['paths']['/b'] = {'$ref': pre + '#/paths/~1x'}
        u = where + '#/definitions/'
        app = verdict(s, [(URL, root), (OTHER, oth)], elementary({u + 'S': [u + 'T'], u + 'T': [u + 'S'] if ringed else []}), 'a circle behind %s' % at)
        s.call(op_of(s, app, 'o'), **({'p': s.obj({'t': {'s': {}}})} if at in ('body', 'parameter by reference', 'path item parameter') else {}))
    run.explore('circles behind other references', body)


def values(run):
    """finite values of recursive models"""
    def body(s):
        k = s.choice('by', 'properties', 'items', 'additionalProperties', 'allOf', 'allOf property')
        x = s.token('x')
        M = {'properties': {'type': 'object', 'properties': {'v': STR, 'n': {'$ref': '#/definitions/M'}}}, 'items': {'type': 'array', 'items': {'$ref': '#/definitions/M'}},
             'additionalProperties': {'type': 'object', 'properties': {'v': STR}, 'additionalProperties': {'$ref': '#/definitions/M'}},
             'allOf': {'allOf': [{'$ref': '#/definitions/N'}]},
             'allOf property': {'type': 'object', 'properties': {'v': STR}, 'allOf': [{'$ref': '#/definitions/N'}]}}[k]
        N = {'allOf': {'type': 'object', 'properties': {'v': STR, 'n': {'$ref': '#/definitions/M'}}}, 'allOf property': {'type': 'object', 'properties': {'n': {'$ref': '#/definitions/M'}}}}.get(k, STR)
        app = app_of(s, doc(definitions={'M': M, 'N': N}), prepare=False)
        s.must(s.attr(app, 'prepare'), False)
        n = s.choice('depth', 0, 1, 2, 3)
        v = {'v': x} if k != 'items' else []
        for _ in range(n):
            v = {'v': x, 'n': v} if k != 'items' else [v, []]
        o = s.call(s.attr(s.attr(app, 'prim_factory'), 'produce'), schema_of(s, app, 'M'), s.obj(v))
        s.check(o.ok, 'value', lambda: 'a value of depth %d of a model recursive by %s: %r' % (n, k, o), o.site)
        w = o.value
        for i in range(n):
            w = s.item(w, 'n' if k != 'items' else 0)
        if k != 'items':
            s.same_ob(s.item(w, 'v'), x, 'value', 'the innermost value')
        else:
            s.check(s.len(w) == 0, 'value', lambda: 'the innermost value is %s' % show(w))
    run.explore('values of recursive models', body)


def old(run):
    """1.2 documents"""
    from .c26 import old12, LIST
    def body(s):
        k = s.choice('by', 'properties', 'items', 'subTypes', 'operation type')
        n = s.choice('models', 1, 2)
        names = 'AB'[:n]
        nxt = lambda x: names[(names.index(x) + 1) % n]
        M = {x: dict({'id': x, 'properties': {'p': {'$ref': nxt(x)} if k == 'properties' else {'type': 'array', 'items': {'$ref': nxt(x)}} if k != 'subTypes' else {'type': 'string'}}}, **({'subTypes': [nxt(x)]} if k == 'subTypes' else {})) for x in names}
        docs, _ = old12(s, {'models': M}, op={'type': 'A'} if k == 'operation type' else {})
        strict = s.choice('strict', True, False)
        app = app_in(s, docs, LIST, prepare=False)
        o = s.meth(app, 'prepare', strict)
        if strict:
            s.check(o.is_exc('CycleDetectionError'), 'strict', lambda: 'recursive 1.2 models by %s: %r, specified CycleDetectionError' % (k, o), o.site)
            return
        s.check(o.ok, 'accept', lambda: 'recursive 1.2 models by %s: %r' % (k, o), o.site)
        s.call(s.attr(s.attr(app, 'prim_factory'), 'produce'), s.item(s.attr(app, 'm'), ('pet', 'A')), s.obj({'p': {'p': {}}}))
    run.explore('1.2 documents', body)


def guards(run):
    """following references round a circle raises, a chain that ends does not"""
    def body(s):
        n = s.choice('steps', 1, 2, 3)
        close = s.choice('back to', *range(-1, n))
        names = 'abc'[:n]
        x = s.token('x')
        defs = {c: {'$ref': '#/definitions/' + (names[i + 1] if i + 1 < n else names[close])} if i + 1 < n or close >= 0 else {'type': 'string', 'description': x} for i, c in enumerate(names)}
        app = app_of(s, doc(definitions=defs), prepare=False)
        s.must(s.attr(app, 'prepare'), False)
        o = s.call('pyswagger.utils:deref', schema_of(s, app, 'a'))
        p = s.call(s.attr(s.attr(app, 'prim_factory'), 'produce'), schema_of(s, app, 'a'), 'v')
        if close >= 0:
            s.check(o.is_exc('CycleDetectionError'), 'guard', lambda: 'deref round a circle: %r, specified CycleDetectionError' % (o,), o.site)
            s.check(p.is_exc('CycleDetectionError'), 'guard', lambda: 'a value round a circle: %r, specified CycleDetectionError' % (p,), p.site)
        else:
            s.check(o.ok, 'guard', lambda: 'deref of a chain: %r' % (o,), o.site)
            s.same_ob(s.attr(o.value, 'description'), x, 'guard', 'the end of the chain')
            s.check(p.ok, 'guard', lambda: 'a value of a chain: %r' % (p,), p.site)
    run.explore('following references', body)
