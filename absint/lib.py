"""Abstract models of builtins and library functions.

Every model is a transfer function on abstract values.  Pure functions of constants are
folded (constant propagation); everything else yields a provenance term.  A library
function without a model makes the path inconclusive, never a verdict.
"""
import builtins as _pyb
import json as _json
import posixpath
import re as _re
import urllib.parse as _up

from .values import *
from . import interp as _interp

MISSING = _interp.MISSING
LIB = {}


def ext(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f
    return deco


# ------------------------------------------------------------------ generic tokens
# A pure string function that only looks at delimiter characters is natural in any token
# that contains none of them: evaluate on a placeholder, substitute back.
def tokenize(I, v, delims):
    v = I.R(v)
    if isinstance(v, str):
        return v, {}
    if not isinstance(v, Term):
        return None
    parts = v.args if v.op == 'cat' else (v,)
    out, tab = [], {}
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, Term) and all(I.free_of(p, d) for d in delims):
            k = 'zq%dqz' % p.n
            tab[k] = p
            out.append(k)
        else:
            return None
    s = ''.join(out)
    return s, tab


def detok(I, s, tab):
    if not tab or not isinstance(s, str):
        return s
    out, i = [], 0
    for m in _re.finditer('|'.join(_re.escape(k) for k in sorted(tab, key=len, reverse=True)), s):
        out.append(s[i:m.start()])
        out.append(tab[m.group(0)])
        i = m.end()
    out.append(s[i:])
    return I.mk_cat(*out)


def natural(I, f, args, delims):
    """f applied on placeholder strings, or MISSING"""
    xs, tab = [], {}
    for a in args:
        r = tokenize(I, a, delims)
        if r is None:
            return MISSING
        xs.append(r[0])
        tab.update(r[1])
    r = f(*xs)
    if isinstance(r, tuple):
        return tuple(detok(I, x, tab) for x in r)
    if isinstance(r, list):
        return I.new_list([detok(I, x, tab) for x in r])
    return detok(I, r, tab)


def uid(I, what):
    k = ('uid', what)
    n = I.F.misc.get(k, 0)
    I.F.misc[k] = n + 1
    return n


# ------------------------------------------------------------------ str methods
def _s(I, v):
    return I.R(v)


def m_str(name):
    def deco(f):
        STRM[name] = f
        return f
    return deco


STRM = {}
LISTM = {}
DICTM = {}
SETM = {}
BYTESM = {}
TUPLEM = {}


def need_str(I, x):
    if not I.has_kind(x, ['str']):
        raise I.exc('TypeError', 'expected str, got %s' % show(I.R(x)))
    return I.R(x)


def _fold(name):
    def f(I, args, kw):
        args = [I.R(a) for a in args]
        if all_const(args) and all_const(list(kw.values())):
            try:
                return lift(I, getattr(args[0], name)(*args[1:], **kw))
            except (TypeError, ValueError, LookupError) as e:
                raise I.exc(type(e).__name__ if type(e).__name__ in I.BUILTINS else 'ValueError', str(e))
        if args and isinstance(args[0], Term) and all_const(args[1:]) and not kw:
            cs = I.cells(args[0])
            if cs is not None:
                if name in ('isdigit', 'isnumeric', 'isdecimal'):
                    return all(x.isdigit() if isinstance(x, str) else x.op == 'digit' for x in cs)
                if name in ('ljust', 'rjust', 'zfill') and isinstance(args[1], int):
                    pad = (args[2] if len(args) > 2 else '0' if name == 'zfill' else ' ') * max(0, args[1] - len(cs))
                    if name == 'ljust':
                        return I.mk_cat(*(cs + [pad]))
                    if name == 'rjust' or cs[0] not in ('+', '-'):
                        return I.mk_cat(*([pad] + cs))
        k = {'title': STR, 'capitalize': STR, 'swapcase': STR, 'zfill': STR, 'ljust': STR, 'rjust': STR,
             'center': STR, 'expandtabs': STR, 'translate': STR, 'casefold': STR, 'removeprefix': STR,
             'removesuffix': STR, 'isdigit': BOOL, 'isalpha': BOOL, 'isalnum': BOOL, 'isspace': BOOL,
             'isupper': BOOL, 'islower': BOOL, 'isnumeric': BOOL, 'isdecimal': BOOL, 'isidentifier': BOOL, 'istitle': BOOL,
             'isascii': BOOL, 'count': INT, 'find': INT, 'rfind': INT, 'splitlines': LIST, 'hex': STR}.get(name, ALLK)
        return T(name, *args, kinds=k)
    return f


for _n in ('title', 'capitalize', 'swapcase', 'zfill', 'ljust', 'rjust', 'center', 'expandtabs', 'casefold',
           'removeprefix', 'removesuffix', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower',
           'isnumeric', 'isdecimal', 'isidentifier', 'istitle', 'isascii', 'count', 'find', 'rfind', 'splitlines'):
    STRM[_n] = _fold(_n)


def _find(last):
    old = STRM['rfind' if last else 'find']

    def f(I, args, kw):
        args = [I.R(a) for a in args]
        s, c = args[0], args[1] if len(args) == 2 else None
        if isinstance(s, Term) and s.op in ('cat', 'sym') and isinstance(c, str) and c:
            parts = list(s.args) if s.op == 'cat' else [s]
            todo = list(enumerate(parts))
            for i, p in reversed(todo) if last else todo:
                if isinstance(p, str):
                    k = p.rfind(c) if last else p.find(c)
                    if k >= 0:
                        return I.mk_add(I.len_parts(parts[:i]), k)
                    if len(c) > 1 and len(parts) > 1:
                        break       # it may begin in this piece and end in the next one
                elif len(c) > 1 or not I.free_of(p, c):
                    break
            else:
                return -1
        return old(I, args, kw)
    return f


STRM['find'], STRM['rfind'] = _find(False), _find(True)


def lift(I, v):
    if isinstance(v, list):
        return I.new_list([lift(I, x) for x in v])
    if isinstance(v, dict):
        return I.new_dict([(k, lift(I, x)) for k, x in v.items()])
    if isinstance(v, tuple):
        return tuple(lift(I, x) for x in v)
    return v


@m_str('index')
def _(I, args, kw):
    r = STRM['find'](I, args, kw)
    if isinstance(r, int) and r < 0:
        raise I.exc('ValueError', 'substring not found')
    if isinstance(r, Term):
        I.may_raise('ValueError', 'str.index')
    return r


@m_str('join')
def _(I, args, kw):
    sep, it = I.R(args[0]), args[1]
    out = []
    for i, x in enumerate(list(I.iterate(it))):
        x = I.U(I.R(x))
        if not isinstance(x, (str, Term)):
            raise I.exc('TypeError', 'sequence item %d: expected str instance' % i)
        x = need_str(I, x)
        if i:
            out.append(sep)
        out.append(x)
    return I.mk_cat(*out)


def is_ascii(v):
    if isinstance(v, str):
        return v.isascii()
    return isinstance(v, Term) and (v.ascii or v.op == 'cat' and all(is_ascii(x) for x in v.args))


@m_str('encode')
def _(I, args, kw):
    s = need_str(I, args[0])
    enc = I.R(args[1]) if len(args) > 1 else kw.get('encoding', 'utf-8')
    errors = I.R(args[2]) if len(args) > 2 else kw.get('errors', 'strict')
    if isinstance(s, Term) and isinstance(enc, str) and enc.lower() in ('ascii', 'latin-1', 'latin1', 'iso-8859-1') and not is_ascii(s):
        if errors != 'strict':
            return T('encode', s, enc, errors, kinds=BYTES)
        I.may_raise('UnicodeEncodeError', 'encode(%s)' % enc)
    if isinstance(s, str) and errors != 'strict':
        return s.encode(enc, errors)
    return I.mk_encode(s, enc)


@m_str('format')
def _(I, args, kw):
    return I.mk_format(args[0], args[1:], kw)


@m_str('format_map')
def _(I, args, kw):
    d = I.U(args[1])
    return I.mk_format(args[0], [], {I.R(k): v for k, v in d.ents.values()})


@m_str('replace')
def _(I, args, kw):
    if len(args) > 3:
        return T('replace', I.R(args[0]), I.R(args[1]), I.R(args[2]), I.R(args[3]), kinds=STR) if not all_const([I.R(a) for a in args]) else I.R(args[0]).replace(*[I.R(a) for a in args[1:]])
    return I.mk_replace(args[0], need_str(I, args[1]), need_str(I, args[2]))


def _strip(name):
    def f(I, args, kw):
        return I.mk_strip(name, args[0], I.R(args[1]) if len(args) > 1 else None)
    return f


for _n in ('strip', 'lstrip', 'rstrip'):
    STRM[_n] = _strip(_n)

STRM['lower'] = lambda I, a, k: I.mk_lower(a[0])
STRM['upper'] = lambda I, a, k: I.mk_upper(a[0])


def starts(I, s, p, end=False):
    s, p = I.R(s), I.R(p)
    if isinstance(p, tuple):
        return any(starts(I, s, x, end) for x in p)
    p = need_str(I, p)
    if isinstance(s, str) and isinstance(p, str):
        return s.endswith(p) if end else s.startswith(p)
    if p == '' or s is p:
        return True
    a = list(s.args) if isinstance(s, Term) and s.op == 'cat' else [s]
    b = list(p.args) if isinstance(p, Term) and p.op == 'cat' else [p]
    if end:
        a, b = a[::-1], b[::-1]
    while a and b:
        x, y = a[0], b[0]
        if x is y or (isinstance(x, str) and x == y):
            a.pop(0)
            b.pop(0)
            continue
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if end:
                if x[-n:] != y[-n:]:
                    return False
                x, y = x[:-n], y[:-n]
            else:
                if x[:n] != y[:n]:
                    return False
                x, y = x[n:], y[n:]
            a[0:1] = [x] if x else []
            b[0:1] = [y] if y else []
            continue
        break
    if not b:
        return True
    if not a:
        r = [x for x in b if isinstance(x, str) or x.fresh or I.F.truth.get(x)]
        if r:
            return False
        return all(not I.truth(x) for x in b)
    if not end:
        sa, sb = I.mk_cat(*a), I.mk_cat(*b)
    else:
        sa, sb = I.mk_cat(*a[::-1]), I.mk_cat(*b[::-1])
    x, y = a[0], b[0]
    if isinstance(x, Term) and x.fresh and isinstance(y, (str, Term)) and (isinstance(y, str) or y.fresh):
        return False
    if isinstance(y, Term) and y.fresh and isinstance(x, str):
        return False
    if isinstance(y, str) and isinstance(x, Term) and y and I.free_of(x, y[-1] if end else y[0]):
        # x does not contain the character: only possible when x is empty
        if I.len_truth(x, STR) or I.F.truth.get(x):
            return False
        if len(a) == 1:
            return False
    if isinstance(y, str) and isinstance(x, Term) and y:
        # x can cover the last (first) n characters of y; what is next to x has to go on with the rest
        for n in range(len(y) + 1):
            part, rest = (y[len(y) - n:], y[:len(y) - n]) if end else (y[:n], y[n:])
            if n and I.free_of(x, y[len(y) - n] if end else y[n - 1]):
                n = -1
                break
            if not rest or (len(b) > 1 and not rest):
                break
            if len(a) > 1:
                z = a[1]
                if not isinstance(z, str):
                    break
                m = min(len(z), len(rest))
                if (z[-m:] == rest[-m:] if end else z[:m] == rest[:m]):
                    break
        else:
            n = -1
        if n < 0:
            return False
    # a known value that was bound equal
    r = I.truth(T('endswith' if end else 'startswith', sa, sb, kinds=BOOL))
    return r


STRM['startswith'] = lambda I, a, k: starts(I, a[0], a[1])
STRM['endswith'] = lambda I, a, k: starts(I, a[0], a[1], True)


@m_str('split')
def _(I, args, kw):
    s = I.R(args[0])
    sep = I.R(args[1]) if len(args) > 1 else kw.get('sep')
    mx = I.R(args[2]) if len(args) > 2 else kw.get('maxsplit', -1)
    if isinstance(s, str) and (sep is None or isinstance(sep, str)):
        return I.new_list(s.split(sep, mx))
    if sep is None:
        sep = ' '
    p = I.do_split(s, sep, mx)
    if p is not None:
        return I.new_list(p)
    if isinstance(s, Term) and isinstance(sep, str) and len(sep) == 1 and isinstance(mx, int) and mx > 0:
        # split at the first occurrence inside a known constant after delimiter-free parts
        parts = list(s.args) if s.op == 'cat' else [s]
        pieces, cur, left = [], [], mx
        ok = True
        for i, a in enumerate(parts):
            if left == 0:
                cur.append(a)
                continue
            if isinstance(a, str):
                xs = a.split(sep, left)
                cur.append(xs[0])
                for x in xs[1:]:
                    pieces.append(I.mk_cat(*cur))
                    cur = [x]
                    left -= 1
            elif I.free_of(a, sep):
                cur.append(a)
            else:
                ok = False
                break
        if ok:
            pieces.append(I.mk_cat(*cur))
            return I.new_list(pieces)
    return T('split', s, sep, mx, kinds=LIST)


@m_str('rsplit')
def _(I, args, kw):
    s = I.R(args[0])
    sep = I.R(args[1]) if len(args) > 1 else kw.get('sep')
    mx = I.R(args[2]) if len(args) > 2 else kw.get('maxsplit', -1)
    if isinstance(s, str) and (sep is None or isinstance(sep, str)):
        return I.new_list(s.rsplit(sep, mx))
    if mx == -1:
        return STRM['split'](I, args, kw)
    p = I.do_split(s, sep, -1)
    if p is not None:
        if len(p) <= mx + 1:
            return I.new_list(p)
        head = p[:len(p) - mx]
        j = []
        for i, x in enumerate(head):
            if i:
                j.append(sep)
            j.append(x)
        return I.new_list([I.mk_cat(*j)] + p[len(p) - mx:])
    return T('rsplit', s, sep, mx, kinds=LIST)


def _partition(I, args, kw):
    s, sep = I.R(args[0]), I.R(args[1])
    if all_const([s, sep]):
        return s.partition(sep)
    p = I.do_split(s, sep, -1)
    if p is None:
        q = STRM['split'](I, [s, sep, 1], {})
        if isinstance(q, HList):
            return (q.items[0], sep, q.items[1]) if len(q.items) == 2 else (s, '', '')
        if I.truth(T('contains', s, sep, kinds=BOOL)):
            return (I.split_item(s, sep, 1, 0), sep, I.split_item(s, sep, 1, 1))
        return (s, '', '')
    if len(p) == 1:
        return (s, '', '')
    j = []
    for i, x in enumerate(p[1:]):
        if i:
            j.append(sep)
        j.append(x)
    return (p[0], sep, I.mk_cat(*j))


def _rpartition(I, args, kw):
    s, sep = I.R(args[0]), I.R(args[1])
    if all_const([s, sep]):
        return s.rpartition(sep)
    q = STRM['rsplit'](I, [s, sep, 1], {})
    if isinstance(q, HList):
        return (q.items[0], sep, q.items[1]) if len(q.items) == 2 else ('', '', s)
    if I.truth(T('contains', s, sep, kinds=BOOL)):
        return (T('item', q, 0, kinds=STR), sep, T('item', q, -1, kinds=STR))
    return ('', '', s)


STRM['partition'] = _partition
STRM['rpartition'] = _rpartition
STRM['__len__'] = lambda I, a, k: I.mk_len(a[0])
STRM['__contains__'] = lambda I, a, k: I.contains(a[0], a[1])
STRM['__getitem__'] = lambda I, a, k: I.getitem(a[0], a[1])
STRM['__eq__'] = lambda I, a, k: I.eq(a[0], a[1])
STRM['__add__'] = lambda I, a, k: I.binop('Add', a[0], a[1])
STRM['translate'] = _fold('translate')

BYTESM['decode'] = lambda I, a, k: decode(I, a[0], I.R(a[1]) if len(a) > 1 else k.get('encoding', 'utf-8'), I.R(a[2]) if len(a) > 2 else k.get('errors', 'strict'))
for _n in ('strip', 'hex', 'count', 'find', 'startswith', 'endswith', 'split', 'replace', 'upper', 'lower'):
    BYTESM[_n] = _fold(_n)


def _bjoin(I, args, kw):
    sep, out = I.R(args[0]), []
    for i, x in enumerate(list(I.iterate(args[1]))):
        if not I.has_kind(x, ['bytes']):
            raise I.exc('TypeError', 'expected bytes')
        if i:
            out.append(sep)
        out.append(I.R(x))
    return I.mk_bcat(*out)


BYTESM['join'] = _bjoin


def decode(I, b, enc, errors='strict'):
    b = I.R(b)
    if errors != 'strict':
        if isinstance(b, bytes):
            return b.decode(enc, errors)
        v = I.mk_decode(b, enc)
        return T('decode', b, enc, errors, kinds=STR) if isinstance(v, Term) and v.op == 'decode' else v
    if not isinstance(b, bytes) and not (isinstance(b, Term) and b.op in ('encode', 'bcat', 'b64e', 'b64ue')):
        I.may_raise('UnicodeDecodeError', 'decode')
    if isinstance(b, Term) and b.op in ('b64e', 'b64ue'):
        return T('decode', b, 'ascii', kinds=STR, ascii=True)
    return I.mk_decode(b, enc)


# ------------------------------------------------------------------ list methods
def lst(I, o):
    o = I.U(I.R(o))
    if not isinstance(o, HList):
        raise Unsupported('list method on %s' % show(o))
    return o


def m_list(name):
    def deco(f):
        LISTM[name] = f
        return f
    return deco


def mut_term(I, o, name, args):
    """mutation of an opaque container: recorded as an effect"""
    o = I.U(I.R(o))
    if isinstance(o, Term):
        I.event('mutate', [o, name] + list(args), {})
        return True
    return False


@m_list('append')
def _(I, a, k):
    if mut_term(I, a[0], 'append', a[1:]):
        return None
    o = lst(I, a[0])
    I.touch(o)
    o.items.append(a[1])


@m_list('extend')
def _(I, a, k):
    if mut_term(I, a[0], 'extend', a[1:]):
        return None
    o = lst(I, a[0])
    vals = list(I.iterate(a[1]))
    I.touch(o)
    o.items.extend(vals)


@m_list('insert')
def _(I, a, k):
    o = lst(I, a[0])
    I.touch(o)
    o.items.insert(I.R(a[1]), a[2])


@m_list('pop')
def _(I, a, k):
    o = I.U(I.R(a[0]))
    i = I.R(a[1]) if len(a) > 1 else -1
    if isinstance(o, Term):
        I.event('mutate', [o, 'pop'], {})
        return T('item', o, i)
    if not o.items:
        raise I.exc('IndexError', 'pop from empty list')
    if not isinstance(i, int):
        raise Unsupported('symbolic pop')
    if not -len(o.items) <= i < len(o.items):
        raise I.exc('IndexError', 'pop index out of range')
    I.touch(o)
    return o.items.pop(i)


@m_list('remove')
def _(I, a, k):
    o = lst(I, a[0])
    for i, x in enumerate(o.items):
        if I.eq(x, a[1]):
            I.touch(o)
            del o.items[i]
            return None
    raise I.exc('ValueError', 'list.remove(x): x not in list')


@m_list('clear')
def _(I, a, k):
    o = lst(I, a[0])
    I.touch(o)
    o.items = []


@m_list('copy')
def _(I, a, k):
    return I.new_list(list(I.iterate(a[0])))


@m_list('index')
def _(I, a, k):
    for i, x in enumerate(list(I.iterate(a[0]))):
        if I.eq(x, a[1]):
            return i
    raise I.exc('ValueError', 'not in list')


@m_list('count')
def _(I, a, k):
    return sum(1 for x in list(I.iterate(a[0])) if I.eq(x, a[1]))


@m_list('reverse')
def _(I, a, k):
    o = lst(I, a[0])
    I.touch(o)
    o.items.reverse()


@m_list('sort')
def _(I, a, k):
    o = lst(I, a[0])
    v = do_sort(I, list(o.items), k.get('key'), k.get('reverse', False))
    I.touch(o)
    o.items = v


@m_list('__init__')
def _(I, a, k):
    o = lst(I, a[0])
    if len(a) > 1:
        v = list(I.iterate(a[1]))
        I.touch(o)
        o.items = v


def _list_getitem(I, a, k):
    o = lst(I, a[0])
    i = I.R(a[1])
    if isinstance(i, int):
        if not -len(o.items) <= i < len(o.items):
            raise I.exc('IndexError', 'list index out of range')
        return o.items[i]
    raise Unsupported('list.__getitem__')


LISTM['__getitem__'] = _list_getitem
LISTM['__len__'] = lambda I, a, k: len(lst(I, a[0]).items)
LISTM['__iter__'] = lambda I, a, k: NatIter(I.it_list(lst(I, a[0])))
LISTM['__contains__'] = lambda I, a, k: any(I.eq(x, a[1]) for x in list(lst(I, a[0]).items))
TUPLEM['index'] = LISTM['index']
TUPLEM['count'] = LISTM['count']
TUPLEM['__len__'] = lambda I, a, k: I.mk_len(a[0])


def do_sort(I, items, key, rev):
    keys = [I.call(key, [x], {}) if key is not None and I.R(key) is not None else x for x in items]
    keys = [I.U(I.R(x)) for x in keys]
    rev = I.truth(rev)
    if all_const(keys):
        try:
            idx = sorted(range(len(items)), key=lambda i: keys[i], reverse=rev)
        except TypeError as e:
            raise I.exc('TypeError', str(e))
        return [items[i] for i in idx]
    out = []
    for i, k in enumerate(keys):
        j = len(out)
        while j > 0:
            o = I.order(as_tuple(keys[out[j - 1]]), as_tuple(k))
            if (o > 0 and not rev) or (o < 0 and rev):
                j -= 1
            else:
                break
        out.insert(j, i)
    return [items[i] for i in out]


def as_tuple(k):
    if isinstance(k, HList):
        return tuple(k.items)
    if isinstance(k, NT):
        return k.items
    return k


# ------------------------------------------------------------------ dict methods
def m_dict(name):
    def deco(f):
        DICTM[name] = f
        return f
    return deco


def dct(I, o):
    o = I.U(I.R(o))
    if not isinstance(o, HDict):
        raise Unsupported('dict method on %s' % show(o))
    return o


@m_dict('get')
def _(I, a, k):
    o = I.U(I.R(a[0]))
    d = a[2] if len(a) > 2 else k.get('default')
    if isinstance(o, Term):
        if I.truth(T('contains', o, I.R(a[1]), kinds=BOOL)):
            return I.getitem(o, a[1])
        return d
    f, v = I.dget(o, a[1])
    return v if f else d


@m_dict('setdefault')
def _(I, a, k):
    o = dct(I, a[0])
    f, v = I.dget(o, a[1])
    if f:
        return v
    d = a[2] if len(a) > 2 else None
    I.dset(o, a[1], d)
    return d


@m_dict('pop')
def _(I, a, k):
    o = I.U(I.R(a[0]))
    if isinstance(o, Term):
        I.event('mutate', [o, 'pop', a[1]], {})
        if I.truth(T('contains', o, I.R(a[1]), kinds=BOOL)):
            return T('getitem', o, I.R(a[1]))
        if len(a) > 2:
            return a[2]
        raise I.exc('KeyError', I.R(a[1]))
    h = I.find(o, a[1])
    if h is MISSING:
        if len(a) > 2:
            return a[2]
        raise I.exc('KeyError', I.R(a[1]))
    v = o.ents[h][1]
    I.ddel(o, h)
    return v


@m_dict('popitem')
def _(I, a, k):
    o = dct(I, a[0])
    if not o.ents:
        raise I.exc('KeyError', 'popitem(): dictionary is empty')
    h = list(o.ents)[-1]
    e = o.ents[h]
    I.ddel(o, h)
    return e


def dict_update(I, o, args, kw, raw=False):
    for src in args:
        s = I.U(I.R(src))
        if isinstance(s, HDict) and (s.cls is None or s.cls.builtin or I.mro_get(s.cls, '__iter__') is None or not isinstance(I.mro_get(s.cls, '__iter__'), Fn)):
            pairs = list(s.ents.values())
        elif isinstance(s, Term):
            if I.has_kind(s, ['dict']):
                s = I.R(s)
                if not isinstance(s, Term):
                    pairs = list(s.ents.values())
                else:
                    pairs = [(x, I.getitem(s, x)) for x in I.iterate(s)]
            else:
                pairs = [tuple(I.unpack(p, 2)) for p in list(I.iterate(s))]
        elif isinstance(s, Obj) and not isinstance(s, (HList, HSet, NatIter, View, NT)) and I.getattr_(s, 'keys', None) is not None:
            pairs = [(x, I.getitem(s, x)) for x in list(I.iterate(I.call(I.getattr_(s, 'keys'), [], {})))]
        else:
            pairs = [tuple(I.unpack(p, 2)) for p in list(I.iterate(s))]
        for x, v in pairs:
            I.dset(o, x, v)
    for x, v in kw.items():
        I.dset(o, x, v)


@m_dict('update')
def _(I, a, k):
    if mut_term(I, a[0], 'update', a[1:]):
        return None
    dict_update(I, dct(I, a[0]), a[1:], k)


DICTM['__init__'] = lambda I, a, k: dict_update(I, dct(I, a[0]), a[1:], k)


@m_dict('clear')
def _(I, a, k):
    o = dct(I, a[0])
    I.touch(o)
    o.ents = {}
    o.nsym = 0


@m_dict('copy')
def _(I, a, k):
    o = I.U(I.R(a[0]))
    if isinstance(o, Term):
        return o
    return I.new_dict(list(o.ents.values()), o.cls if o.cls is not None and o.cls.builtin else None)


def _view(what):
    def f(I, a, k):
        o = I.U(I.R(a[0]))
        if isinstance(o, Term):
            ks = list(I.iterate(o))
            if what == 'keys':
                return I.new_list(ks)
            vs = [I.getitem(o, x) for x in ks]
            return I.new_list(vs if what == 'values' else list(zip(ks, vs)))
        return View(o, what)
    return f


for _n in ('keys', 'values', 'items'):
    DICTM[_n] = _view(_n)


def _viter(what):
    def f(I, a, k):
        o = I.U(I.R(a[0]))
        return NatIter(iter(list(_view(what)(I, a, k).items)) if isinstance(o, Term) else I.it_dict(o, what))
    return f


DICTM['iterkeys'] = _viter('keys')
DICTM['itervalues'] = _viter('values')
DICTM['iteritems'] = _viter('items')
del DICTM['iterkeys'], DICTM['itervalues'], DICTM['iteritems']   # absent on python 3


@m_dict('__getitem__')
def _(I, a, k):
    o = dct(I, a[0])
    f, v = I.dget(o, a[1])
    if not f:
        raise I.exc('KeyError', I.R(a[1]))
    return v


def _dsetitem(I, a, k):
    I.dset(dct(I, a[0]), a[1], a[2])


def _ddelitem(I, a, k):
    o = dct(I, a[0])
    h = I.find(o, a[1])
    if h is MISSING:
        raise I.exc('KeyError', I.R(a[1]))
    I.ddel(o, h)


DICTM['__setitem__'] = _dsetitem
DICTM['__delitem__'] = _ddelitem
DICTM['__contains__'] = lambda I, a, k: I.find(dct(I, a[0]), a[1]) is not MISSING
DICTM['__len__'] = lambda I, a, k: len(dct(I, a[0]).ents)
DICTM['__iter__'] = lambda I, a, k: NatIter(I.it_dict(dct(I, a[0]), 'keys'))


def _fromkeys(I, a, k):
    v = a[1] if len(a) > 1 else None
    return I.new_dict([(x, v) for x in list(I.iterate(a[0]))])


# ------------------------------------------------------------------ set methods
def sett(I, o):
    o = I.U(I.R(o))
    if not isinstance(o, HSet):
        raise Unsupported('set method on %s' % show(o))
    return o


def _sadd(I, a, k):
    if mut_term(I, a[0], 'add', a[1:]):
        return None
    I.sadd(sett(I, a[0]), a[1])


def _supdate(I, a, k):
    s = sett(I, a[0])
    for x in a[1:]:
        for v in list(I.iterate(x)):
            I.sadd(s, v)


def _sdiscard(I, a, k):
    s = sett(I, a[0])
    h = I.find(s, a[1])
    if h is not MISSING:
        I.ddel(s, h)


def _sremove(I, a, k):
    s = sett(I, a[0])
    h = I.find(s, a[1])
    if h is MISSING:
        raise I.exc('KeyError', I.R(a[1]))
    I.ddel(s, h)


def _spop(I, a, k):
    s = sett(I, a[0])
    if not s.ents:
        raise I.exc('KeyError', 'pop from an empty set')
    h = list(s.ents)[0]
    v = s.ents[h][0]
    I.ddel(s, h)
    return v


def _sop(op):
    def f(I, a, k):
        r = a[0]
        for x in a[1:]:
            x = I.U(I.R(x))
            if not isinstance(x, HSet):
                x = I.new_set(list(I.iterate(x)))
            r = I.setop(op, r, x)
        return r if len(a) > 1 else I.new_set(list(I.iterate(r)))
    return f


def _scmp(op):
    def f(I, a, k):
        x = I.U(I.R(a[1]))
        if not isinstance(x, HSet):
            x = I.new_set(list(I.iterate(x)))
        return I.compare(op, a[0], x)
    return f


SETM.update({
    'add': _sadd, 'update': _supdate, 'discard': _sdiscard, 'remove': _sremove, 'pop': _spop,
    'union': _sop('BitOr'), 'intersection': _sop('BitAnd'), 'difference': _sop('Sub'),
    'symmetric_difference': _sop('BitXor'),
    'issubset': _scmp('LtE'), 'issuperset': _scmp('GtE'),
    'isdisjoint': lambda I, a, k: not I.setop('BitAnd', a[0], I.new_set(list(I.iterate(a[1])))).ents,
    'copy': lambda I, a, k: I.new_set(list(I.iterate(a[0]))),
    'clear': lambda I, a, k: DICTM['clear'](I, a, k),
    '__len__': lambda I, a, k: len(sett(I, a[0]).ents),
    '__contains__': lambda I, a, k: I.find(sett(I, a[0]), a[1]) is not MISSING,
    '__init__': lambda I, a, k: _supdate(I, a, k),
})


# ------------------------------------------------------------------ builtin functions
B = {}


def bi(name):
    def deco(f):
        B[name] = f
        return f
    return deco


B['len'] = lambda I, a, k: I.mk_len(a[0])
B['repr'] = lambda I, a, k: repr(I.R(a[0])) if is_const(I.R(a[0])) else T('repr', I.U(I.R(a[0])), kinds=STR)
B['print'] = lambda I, a, k: None
B['callable'] = lambda I, a, k: callable_(I, a[0])
@bi('id')
def _(I, a, k):
    # distinct for distinct objects and values of this path
    v = I.U(I.R(a[0]))
    key = v if isinstance(v, Obj) else ckey(v)
    tab = I.F.misc.setdefault('ids', [])
    for i, o in enumerate(tab):
        if o is key or not isinstance(key, Obj) and not isinstance(o, Obj) and o == key:
            return 140000000000000 + 64 * i
    tab.append(key)
    return 140000000000000 + 64 * (len(tab) - 1)

B['hash'] = lambda I, a, k: T('hash', I.U(I.R(a[0])), kinds=INT)
B['isinstance'] = lambda I, a, k: I.isinstance_(a[0], a[1])
B['iter'] = lambda I, a, k: mk_iter(I, *a)
B['abs'] = lambda I, a, k: abs(I.R(a[0])) if is_const(I.R(a[0])) else T('abs', I.R(a[0]), kinds=I.kinds(a[0]) & NUM or NUM)
B['ord'] = lambda I, a, k: ord(I.R(a[0])) if is_const(I.R(a[0])) else T('ord', I.R(a[0]), kinds=INT)
B['chr'] = lambda I, a, k: chr(I.R(a[0])) if is_const(I.R(a[0])) else T('chr', I.R(a[0]), kinds=STR)
B['divmod'] = lambda I, a, k: (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))
B['pow'] = lambda I, a, k: I.binop('Pow', a[0], a[1])
B['setattr'] = lambda I, a, k: I.setattr_(a[0], I.R(a[1]), a[2])
B['delattr'] = lambda I, a, k: I.delattr_(a[0], I.R(a[1]))


@bi('round')
def _(I, a, k):
    a = [I.R(x) for x in a]
    if all_const(a):
        return round(*a)
    return T('round', *a, kinds=INT if len(a) == 1 else NUM)


def callable_(I, v):
    v = I.U(I.R(v))
    if isinstance(v, (Fn, Builtin, BoundM, Cls)):
        return True
    if isinstance(v, Ext):
        return True
    if isinstance(v, Term):
        if v.note == 'callback':
            return True
        if not I.kinds(v) & OBJ:
            return False
        return I.truth(T('callable', v, kinds=BOOL))
    if isinstance(v, Obj):
        return I.mro_get(I.cls_of(v), '__call__') is not None
    return False


def mk_iter(I, o, *rest):
    if rest:
        def g():
            while True:
                v = I.call(o, [], {})
                if I.eq(v, rest[0]):
                    return
                yield v
        return NatIter(g())
    o = I.U(I.R(o))
    if isinstance(o, NatIter):
        return o
    if isinstance(o, Obj) and o.cls is not None and not o.cls.builtin and type(o) in (Obj, HDict, HList, HSet):
        m = I.mro_get(o.cls, '__iter__')
        if isinstance(m, Fn):
            return I.call(m, [o], {})
    return NatIter(iter(I.iterate(o)))


@bi('next')
def do_next(I, a, k=None):
    o = I.U(I.R(a[0]))
    if isinstance(o, NatIter):
        try:
            return next(o.it)
        except StopIteration:
            pass
    elif isinstance(o, Obj) and o.cls is not None:
        m = I.mro_get(o.cls, '__next__')
        if m is None:
            raise I.exc('TypeError', 'not an iterator')
        try:
            return I.call(m, [o], {})
        except Raised as e:
            if e.obj.cls.name != 'StopIteration' or len(a) < 2:
                raise
    elif isinstance(o, Term):
        raise Unsupported('next(%s)' % show(o))
    else:
        raise I.exc('TypeError', 'not an iterator')
    if len(a) > 1:
        return a[1]
    raise I.exc('StopIteration')


def attr_name(I, v):
    n = I.R(v)
    if isinstance(n, str):
        return n
    if not isinstance(n, Term):
        raise I.exc('TypeError', 'attribute name must be string')
    raise Unsupported('attribute access with opaque name %s' % show(n))


@bi('getattr')
def _(I, a, k):
    if len(a) > 2:
        try:
            return I.getattr_(a[0], attr_name(I, a[1]))
        except Raised as e:
            if 'AttributeError' in [c.name for c in e.obj.cls.mro]:
                return a[2]
            raise
    return I.getattr_(a[0], attr_name(I, a[1]))


@bi('hasattr')
def _(I, a, k):
    n = attr_name(I, a[1])
    o = I.U(I.R(a[0]))
    if isinstance(o, Term) and not [x for x in I.kinds(o) if x in I.KCLS]:
        if ('attr', o, n) in I.F.misc:
            return True
        return I.truth(T('hasattr', o, n, kinds=BOOL))
    try:
        I.getattr_(a[0], n)
        return True
    except Raised as e:
        if 'AttributeError' in [c.name for c in e.obj.cls.mro]:
            return False
        raise


@bi('issubclass')
def _(I, a, k):
    c, t = I.R(a[0]), I.R(a[1])
    if isinstance(c, Ext):
        c = I.ext_class(c)
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        x = I.R(x)
        if isinstance(x, Ext):
            x = I.LIBVAL.get(x.name) or I.ext_class(x)
        if not isinstance(c, Cls):
            raise I.exc('TypeError', 'issubclass() arg 1 must be a class')
        if x in c.mro:
            return True
    return False


def to_index(I, n):
    """a concrete iteration count for a symbolic int (bounded unrolling)"""
    n = I.R(n)
    if isinstance(n, bool):
        return int(n)
    if isinstance(n, int):
        return n
    if isinstance(n, float) or n is None or isinstance(n, str):
        raise I.exc('TypeError', 'integer required')
    if isinstance(n, Term):
        if not I.has_kind(n, ['int', 'bool']):
            raise I.exc('TypeError', 'integer required')
        n = I.R(n)
        if isinstance(n, int):
            return int(n)
        opts = [x for x in I.SYMLEN if I.order_possible(n, x, 0)]
        if I.order_possible(n, 0, -1):
            opts.append(-1)
        if not opts:
            raise Unsupported('range bound %s beyond the unrolling bound' % show(n))
        c = I.split(opts, 'range(%s)' % show(n))
        if c == -1:
            t, off = I.lin(n)
            lo, lop, hi, hop = I.rng_of(t)
            I.F.rng[t] = (lo, lop, -off, True)
            return 0
        t, off = I.lin(n)
        I.bind(t, c - off)
        return c
    raise I.exc('TypeError', 'integer required')


@bi('range')
def _(I, a, k):
    v = [to_index(I, x) for x in a]
    r = range(*v)
    if len(r) > 2000:
        raise Diverged('range of %d' % len(r))
    return I.new_list(list(r))


@bi('enumerate')
def _(I, a, k):
    st = I.R(a[1]) if len(a) > 1 else k.get('start', 0)

    def g(it):
        i = st
        for v in it:
            yield (i, v)
            i += 1
    return NatIter(g(I.iterate(a[0])))


@bi('zip')
def _(I, a, k):
    its = [I.iterate(x) for x in a]
    return NatIter(zip(*its))


@bi('map')
def _(I, a, k):
    its = [I.iterate(x) for x in a[1:]]

    def g():
        for xs in zip(*its):
            yield I.call(a[0], list(xs), {})
    return NatIter(g())


@bi('filter')
def _(I, a, k):
    it = I.iterate(a[1])

    def g():
        for x in it:
            r = x if I.R(a[0]) is None else I.call(a[0], [x], {})
            if I.truth(r):
                yield x
    return NatIter(g())


B['sorted'] = lambda I, a, k: I.new_list(do_sort(I, list(I.iterate(a[0])), k.get('key'), k.get('reverse', False)))
B['reversed'] = lambda I, a, k: NatIter(iter(list(I.iterate(a[0]))[::-1]))


def _minmax(sign):
    def f(I, a, k):
        items = list(I.iterate(a[0])) if len(a) == 1 else list(a)
        if not items:
            if 'default' in k:
                return k['default']
            raise I.exc('ValueError', 'arg is an empty sequence')
        key = k.get('key')
        best = items[0]
        for x in items[1:]:
            kx = I.call(key, [x], {}) if key else x
            kb = I.call(key, [best], {}) if key else best
            if I.order(as_tuple(I.U(I.R(kx))), as_tuple(I.U(I.R(kb)))) * sign > 0:
                best = x
        return I.R(best)
    return f


B['max'] = _minmax(1)
B['min'] = _minmax(-1)


@bi('sum')
def _(I, a, k):
    acc = a[1] if len(a) > 1 else k.get('start', 0)
    for x in list(I.iterate(a[0])):
        acc = I.binop('Add', acc, x)
    return acc


@bi('any')
def _(I, a, k):
    for x in I.iterate(a[0]):
        if I.truth(x):
            return True
    return False


@bi('all')
def _(I, a, k):
    for x in I.iterate(a[0]):
        if not I.truth(x):
            return False
    return True


@bi('vars')
def _(I, a, k):
    return I.getattr_(a[0], '__dict__')


@bi('dir')
def _(I, a, k):
    o = I.U(I.R(a[0]))
    names = set(o.attrs) if isinstance(o, Obj) else set()
    for c in I.cls_of(o).mro:
        names |= set(c.ns)
    return I.new_list(sorted(names))


@bi('format')
def _(I, a, k):
    return I.mk_format('{0:%s}' % I.R(a[1]) if len(a) > 1 and I.R(a[1]) else '{0}', [a[0]], {})


@bi('super')
def _(I, a, k):
    return Super(I.R(a[0]), I.U(I.R(a[1])))


@bi('open')
def do_open(I, a, k):
    h = Handle('open', tuple(I.R(x) for x in a), I.epoch)
    h.site = I.loc()
    I.event('open', a, k, h)
    if I.faults:
        I.may_raise('OSError', 'open')
    mode = I.R(a[1]) if len(a) > 1 else I.R(k.get('mode', 'r'))
    h.content = T('content', I.R(a[0]), mode, kinds=BYTES if isinstance(mode, str) and 'b' in mode else STR)
    c = I.F.misc.get(('file', ckey(I.R(a[0]))))
    if c is None and ('fs', 'open') in I.F.misc:
        c = I.F.misc[('fs', 'open')](I.R(a[0]))
        if c is None:
            raise I.exc('FileNotFoundError' if 'FileNotFoundError' in I.BUILTINS else 'OSError', 'No such file or directory')
    if c is not None:
        binary = isinstance(mode, str) and 'b' in mode
        enc = I.R(k.get('encoding', a[3] if len(a) > 3 else None))
        if binary:
            c = c.encode('utf-8') if isinstance(c, str) else I.mk_encode(c, 'utf-8') if isinstance(c, Term) and I.kinds(c) <= STR else c
        elif isinstance(c, bytes):
            try:
                # the locale decides in text mode without an encoding
                c = c.decode(enc or 'ascii')
            except UnicodeDecodeError as e:
                if enc:
                    raise I.exc('UnicodeDecodeError', str(e))
                c = T('decode', c, 'encoding of the locale', kinds=STR)
        h.content = c
    I.handles.append(h)
    return h


def _danger(name):
    def f(I, a, k):
        I.event(name, a, k)
        return T('call', name, uid(I, name))
    return f


for _n in ('eval', 'exec', 'execfile', 'compile', '__import__', 'input'):
    B[_n] = _danger(_n)


# ------------------------------------------------------------------ constructors
def c_str(I, c, a, k):
    if not a:
        return ''
    if len(a) > 1:
        return decode(I, a[0], I.R(a[1]))
    v = I.U(I.R(a[0]))
    if isinstance(v, Term) and v.op == 'uuid.hex':
        return v
    return I.mk_str(v)


def c_int(I, c, a, k):
    if not a:
        return 0
    v = I.U(I.R(a[0]))
    base = [I.R(x) for x in a[1:]]
    if isinstance(v, (int, float, str, bytes)) or v is None:
        try:
            return int(v, *base)
        except (ValueError, TypeError, OverflowError) as e:
            raise I.exc(type(e).__name__, str(e))
    if isinstance(v, Term):
        ks = I.kinds(v)
        bad = ks & frozenset(['none', 'list', 'dict', 'tuple', 'set', 'date', 'datetime'])
        if bad and I.has_kind(v, bad):
            raise I.exc('TypeError', 'int() argument')
        v = I.R(v)
        ks = I.kinds(v)
        if ks <= INT:
            return v
        cs = I.cells(v) if not base else None
        if cs is not None:
            sg = 1
            if cs[0] in ('+', '-'):
                sg = -1 if cs.pop(0) == '-' else 1
            if not cs or not all(x.isdigit() if isinstance(x, str) else x.op == 'digit' for x in cs):
                raise I.exc('ValueError', 'invalid literal for int()')
            while len(cs) > 1 and cs[0] == '0':
                cs.pop(0)
            if all(isinstance(x, str) for x in cs):
                return sg * int(''.join(cs))
            t = T('int', I.mk_cat(*cs), kinds=INT)
            if t not in I.F.rng:
                I.F.rng[t] = (0, False, 10 ** len(cs) - 1, False)
            return t if sg > 0 else I.mk_neg(t)
        if ks & frozenset(['str', 'bytes', 'obj']) and not (v.op == 'group'):
            I.may_raise('ValueError', 'int()')
        return T('int', v, *base, kinds=INT)
    m = I.mro_get(I.cls_of(v), '__int__')
    if m is not None:
        return I.call(m, [v], {})
    raise I.exc('TypeError', 'int() argument')


def c_float(I, c, a, k):
    if not a:
        return 0.0
    v = I.U(I.R(a[0]))
    if isinstance(v, (int, float, str, bytes)) or v is None:
        try:
            return float(v)
        except (ValueError, TypeError, OverflowError) as e:
            raise I.exc(type(e).__name__, str(e))
    if isinstance(v, Term):
        ks = I.kinds(v)
        bad = ks & frozenset(['none', 'list', 'dict', 'tuple', 'set', 'date', 'datetime'])
        if bad and I.has_kind(v, bad):
            raise I.exc('TypeError', 'float() argument')
        v = I.R(v)
        if I.kinds(v) <= frozenset(['float']):
            return v
        if I.kinds(v) & frozenset(['str', 'bytes', 'obj']):
            I.may_raise('ValueError', 'float()')
        return T('float', v, kinds=frozenset(['float']))
    raise I.exc('TypeError', 'float() argument')


def c_bool(I, c, a, k):
    if not a:
        return False
    v = I.R(a[0])
    if isinstance(v, Term) and I.kinds(v) <= BOOL:
        return v
    return I.truth(v)


def c_list(I, c, a, k):
    if not a:
        return I.new_list()
    v = I.U(I.R(a[0]))
    if isinstance(v, Term) and I.kinds(v) <= LIST and ('len', v) not in I.F.misc and v.op in ('split', 'sym'):
        pass
    return I.new_list(list(I.iterate(a[0])))


def c_tuple(I, c, a, k):
    return tuple(I.iterate(a[0])) if a else ()


def c_dict(I, c, a, k):
    d = I.new_dict((), c)
    dict_update(I, d, a, k)
    return d


def c_set(I, c, a, k):
    s = HSet(c, I.epoch)
    if a:
        for x in list(I.iterate(a[0])):
            I.sadd(s, x)
    return s


def c_type(I, c, a, k):
    if len(a) == 1:
        v = I.R(a[0])
        if isinstance(v, Term):
            ks = I.kinds(v)
            if len(ks) > 1:
                return T('type', v, kinds=OBJ)
        return I.cls_of(v)
    n, bases, ns = a
    d = I.U(I.R(ns))
    return I.make_class(I.R(n), list(I.R(bases)), {I.R(x): v for x, v in d.ents.values()})


def type_new(I, a, k):
    mcs, n, bases, ns = a[:4]
    d = I.U(I.R(ns))
    return I.make_class(I.R(n), list(I.iterate(bases)), {I.R(x): v for x, v in d.ents.values()}, mcs)


def c_bytes(I, c, a, k):
    if not a:
        return b''
    v = I.U(I.R(a[0]))
    if isinstance(v, (str, Term)) and len(a) > 1:
        return I.mk_encode(v, I.R(a[1]))
    if isinstance(v, (bytes, int)):
        return bytes(v)
    if isinstance(v, Term) and I.kinds(v) <= BYTES:
        return v
    if isinstance(v, Buf):
        return buf_value(I, v)
    raise Unsupported('bytes(%s)' % show(v))


def c_property(I, c, a, k):
    a = list(a) + [None] * (3 - len(a))
    return Wrap('property', k.get('fget', a[0]), k.get('fset', a[1]), k.get('fdel', a[2]))


def c_partial(I, c, a, k):
    o = I.new_obj(c)
    f = I.R(a[0])
    args, kw = tuple(a[1:]), dict(k)
    if isinstance(f, Obj) and f.cls is c:
        args = f.attrs['args'] + args
        kk = dict(f.attrs['@kw'])
        kk.update(kw)
        kw = kk
        f = f.attrs['func']
    o.attrs.update({'func': f, 'args': args, '@kw': kw})
    return o


def partial_call(I, a, k):
    o = a[0]
    kw = dict(o.attrs['@kw'])
    kw.update(k)
    return I.call(o.attrs['func'], list(o.attrs['args']) + list(a[1:]), kw)


def c_defaultdict(I, c, a, k):
    d = I.new_dict((), c)
    if a:
        d.attrs['factory'] = a[0]
        dict_update(I, d, a[1:], k)
    return d


def c_object(I, c, a, k):
    return I.new_obj(c)


def c_slice(I, c, a, k):
    raise Unsupported('slice object')


# ------------------------------------------------------------------ json / yaml
def freeze_json(I, v, enc, seen=()):
    v = I.U(I.R(v))
    if isinstance(v, CONST):
        if isinstance(v, bytes):
            raise I.exc('TypeError', 'bytes is not JSON serializable')
        return v
    if isinstance(v, Term):
        ks = I.kinds(v)
        bad = ks & frozenset(['bytes', 'set', 'date', 'datetime', 'uuid'])
        if bad and bad == ks:
            if enc is None:
                raise I.exc('TypeError', 'not JSON serializable')
            return freeze_json(I, I.call(I.getattr_(enc, 'default'), [v], {}), enc, seen)
        return v
    if isinstance(v, (tuple, NT)):
        return ('l',) + tuple(freeze_json(I, x, enc, seen) for x in (v.items if isinstance(v, NT) else v))
    if any(v is s for s in seen):
        raise I.exc('ValueError', 'Circular reference detected')
    seen = seen + (v,)
    if isinstance(v, HSet):
        pass
    elif isinstance(v, HDict):
        return ('d',) + tuple((freeze_json(I, x, enc, seen), freeze_json(I, y, enc, seen)) for x, y in v.ents.values())
    elif isinstance(v, HList):
        return ('l',) + tuple(freeze_json(I, x, enc, seen) for x in v.items)
    if enc is None:
        raise I.exc('TypeError', 'Object of type %s is not JSON serializable' % I.cls_of(v).name)
    return freeze_json(I, I.call(I.getattr_(enc, 'default'), [v], {}), enc, seen)


def thaw_json(I, t):
    if isinstance(t, tuple) and t and t[0] == 'd':
        return I.new_dict([(thaw_json(I, x), thaw_json(I, y)) for x, y in t[1:]])
    if isinstance(t, tuple) and t and t[0] == 'l':
        return I.new_list([thaw_json(I, x) for x in t[1:]])
    return t


@ext('json.dumps')
def _(I, a, k):
    enc = k.get('cls')
    if enc is not None:
        enc = I.call(enc, [], {})
    if 'default' in k:
        e = I.new_obj(I.C_object)
        e.attrs['default'] = k['default']
        enc = e
    return T('json.dumps', freeze_json(I, a[0], enc), kinds=STR)


@ext('json.JSONEncoder.default')
def _(I, a, k):
    raise I.exc('TypeError', 'Object is not JSON serializable')


@ext('json.JSONEncoder.encode')
def _(I, a, k):
    return T('json.dumps', freeze_json(I, a[1], a[0]), kinds=STR)


@ext('json.loads')
def _(I, a, k):
    v = I.R(a[0])
    I.event('json.loads', a, k)
    if isinstance(v, (str, bytes)):
        try:
            return lift(I, _json.loads(v))
        except ValueError as e:
            raise I.exc('ValueError', str(e))
    if isinstance(v, Term):
        if not I.has_kind(v, ['str', 'bytes']):
            raise I.exc('TypeError', 'the JSON object must be str or bytes')
        v = I.R(v)
        if v.op == 'json.dumps':
            return thaw_json(I, v.args[0])
        I.may_raise('ValueError', 'json.loads')
        return T('json.loads', v, kinds=frozenset(['none', 'bool', 'int', 'float', 'str', 'list', 'dict']))
    raise I.exc('TypeError', 'the JSON object must be str or bytes')


@ext('json.load')
def _(I, a, k):
    return LIB['json.loads'](I, [I.call(I.getattr_(a[0], 'read'), [], {})], k)


def _yaml(name):
    def f(I, a, k):
        I.event(name, a, k)
        v = I.R(a[0])
        if isinstance(v, Handle):
            v = v.content
        I.may_raise('YAMLError', name)
        return T('yaml', v)
    return f


for _n in ('yaml.load', 'yaml.safe_load', 'yaml.full_load', 'yaml.unsafe_load', 'yaml.load_all', 'yaml.safe_load_all'):
    LIB[_n] = _yaml(_n)


# ------------------------------------------------------------------ base64
def _b64(op, inv):
    def f(I, a, k):
        v = I.R(a[0])
        if isinstance(v, Term) and v.op == inv:
            return v.args[0]
        if op in ('b64e', 'b64ue') and not I.has_kind(v, ['bytes']):
            raise I.exc('TypeError', 'a bytes-like object is required')
        if isinstance(v, Term) and v.op in ('encode', 'decode') and isinstance(v.args[0], Term) and v.args[0].op == inv:
            return v.args[0].args[0]
        return T(op, I.R(v), kinds=BYTES)
    return f


LIB['base64.b64encode'] = LIB['base64.standard_b64encode'] = _b64('b64e', 'b64d')
LIB['base64.urlsafe_b64encode'] = _b64('b64ue', 'b64ud')
LIB['base64.b64decode'] = LIB['base64.standard_b64decode'] = _b64('b64d', 'b64e')
LIB['base64.urlsafe_b64decode'] = _b64('b64ud', 'b64ue')
LIB['base64.encodestring'] = LIB['base64.encodebytes'] = _b64('b64el', 'b64dl')

# ------------------------------------------------------------------ datetime / uuid / time
KD, KDT, KU = frozenset(['date']), frozenset(['datetime']), frozenset(['uuid'])


def _mk(op, kinds, raises=None):
    def f(I, a, k):
        if raises:
            I.may_raise(raises, op)
        args = [I.U(I.R(x)) for x in a]
        kw = tuple(sorted((x, I.U(I.R(v))) for x, v in k.items()))
        return T(op, *(args + ([kw] if kw else [])), kinds=kinds)
    return f


LIB['datetime.date.fromtimestamp'] = _mk('date.fromtimestamp', KD)
LIB['datetime.datetime.fromtimestamp'] = _mk('datetime.fromtimestamp', KDT)
LIB['datetime.datetime.utcfromtimestamp'] = _mk('datetime.utcfromtimestamp', KDT)


def poly(I, v):
    """a number as sum of multiples of terms, else None"""
    v = I.R(v)
    if isinstance(v, bool) or isinstance(v, (int, float)):
        return {None: v} if v else {}
    if not isinstance(v, Term):
        return None
    if v.op in ('add', 'plus'):
        return padd(poly(I, v.args[0]), poly(I, v.args[1]))
    if v.op == 'neg':
        return pmul(poly(I, v.args[0]), -1)
    if v.op == 'mult' and not isinstance(I.R(v.args[1]), Term):
        return pmul(poly(I, v.args[0]), I.R(v.args[1]))
    return {v: 1}


def padd(a, b):
    if a is None or b is None:
        return None
    r = dict(a)
    for k, n in b.items():
        r[k] = r.get(k, 0) + n
    return {k: n for k, n in r.items() if n}


def pmul(a, n):
    return None if a is None else {k: m * n for k, m in a.items() if m * n}


def mk_timedelta(p):
    return T('timedelta', *[(k, n) for k, n in sorted(p.items(), key=lambda e: -1 if e[0] is None else e[0].n)], kinds=OBJ)


TDUNITS = (('days', 86400 * 10**6), ('seconds', 10**6), ('microseconds', 1), ('milliseconds', 1000), ('minutes', 60 * 10**6), ('hours', 3600 * 10**6), ('weeks', 7 * 86400 * 10**6))


@ext('datetime.timedelta')
def _(I, a, k):
    vals = dict(zip([u for u, _ in TDUNITS], a))
    vals.update(k)
    r = {}
    for u, n in TDUNITS:
        if u in vals:
            r = padd(r, pmul(poly(I, vals[u]), n))
    if r is None:
        return _mk('timedelta_', OBJ)(I, a, k)
    return mk_timedelta(r)


def times(I, op, a, b):
    """products with constants of numbers made of digits, sums of time differences"""
    if op == 'Mult':
        if not isinstance(a, Term):
            a, b = b, a
        if isinstance(b, Term) or isinstance(b, bool) or not isinstance(b, int):
            return MISSING
        if a.op == 'timedelta':
            return mk_timedelta(pmul(dict(a.args), b))
        if a.op in ('int', 'neg') and I.kinds(a) <= INT:
            if b in (0, 1, -1):
                return 0 if b == 0 else a if b == 1 else I.mk_neg(a)
            c = I.cells(a.args[0]) if a.op == 'int' and len(a.args) == 1 else None
            if c is not None and b > 0 and str(b).strip('0') == '1':
                return T('int', I.mk_cat(a.args[0], '0' * (len(str(b)) - 1)), kinds=INT)
        return MISSING
    if op in ('Add', 'Sub') and all(isinstance(x, Term) and x.op == 'timedelta' for x in (a, b)):
        return mk_timedelta(padd(dict(a.args), pmul(dict(b.args), 1 if op == 'Add' else -1)))
    return MISSING


LIB['datetime.datetime.now'] = lambda I, a, k: T('datetime.now', uid(I, 'now'), kinds=KDT)
LIB['datetime.datetime.utcnow'] = lambda I, a, k: T('datetime.now', uid(I, 'now'), kinds=KDT)
LIB['datetime.date.today'] = lambda I, a, k: T('date.today', uid(I, 'now'), kinds=KD)
LIB['datetime.datetime.strptime'] = _mk('strptime', KDT, 'ValueError')
LIB['datetime.datetime.fromisoformat'] = _mk('dt.fromisoformat', KDT, 'ValueError')
LIB['datetime.date.fromisoformat'] = _mk('d.fromisoformat', KD, 'ValueError')
LIB['datetime.datetime.combine'] = _mk('combine', KDT)

DTF = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')


def ymd(I, vals, what):
    vals = {n: I.U(I.R(v)) for n, v in vals.items()}
    for n in DTF[:3]:
        if n in vals and I.kinds(vals[n]) <= INT and not I.truth(vals[n]):
            raise I.exc('ValueError', '%s: %s is 0' % (what, n))
    if all_const(list(vals.values())):
        import datetime as _dt
        try:
            (_dt.datetime if what == 'datetime()' else _dt.date)(**vals)
        except (ValueError, TypeError) as e:
            raise I.exc(type(e).__name__, '%s: %s' % (what, e))
        return
    I.may_raise('ValueError', what)


def c_datetime(I, c, a, k):
    vals = dict(zip(DTF, a))
    vals.update(k)
    ymd(I, vals, 'datetime()')
    full = [I.U(I.R(vals.get(n, 0 if n != 'tzinfo' else None))) for n in DTF]
    return T('datetime', *full, kinds=KDT)


def c_date(I, c, a, k):
    vals = dict(zip(DTF, a))
    vals.update(k)
    ymd(I, vals, 'date()')
    return T('date', *[I.U(I.R(vals[n])) for n in DTF[:3]], kinds=KD)


def _dt_date(I, a, k):
    v = I.R(a[0])
    if v.op == 'datetime':
        return T('date', *v.args[:3], kinds=KD)
    return T('dt.date', v, kinds=KD)


def tmeth(op, kinds):
    def f(I, a, k):
        return T(op, *([I.R(x) for x in a] + ([tuple(sorted(k.items()))] if k else [])), kinds=kinds)
    return f


DATEM = {'isoformat': tmeth('isoformat', STR), 'strftime': tmeth('strftime', STR),
         'timetuple': tmeth('timetuple', OBJ), 'replace': tmeth('dt.replace', frozenset(['date']))}
DATETIMEM = {'date': _dt_date, 'time': tmeth('dt.time', OBJ), 'utctimetuple': tmeth('utctimetuple', OBJ),
             'timestamp': tmeth('timestamp', NUM), 'isoformat': tmeth('isoformat', STR), 'astimezone': tmeth('astimezone', KDT),
             'replace': tmeth('dt.replace', KDT)}


def c_uuid(I, c, a, k):
    key = 'str'
    v = None
    if a:
        v = a[0]
    else:
        for key in ('hex', 'bytes', 'bytes_le', 'int'):
            if key in k:
                v = k[key]
                break
    if key == 'hex':
        key = 'str'
    if key == 'str':
        if not I.has_kind(v, ['str']):
            raise I.exc('AttributeError', 'replace')
        I.may_raise('ValueError', 'uuid.UUID')
    elif key in ('bytes', 'bytes_le'):
        if not I.has_kind(v, ['bytes']):
            raise I.exc('ValueError' if I.has_kind(v, ['str', 'list', 'tuple']) else 'TypeError', 'bytes is not a 16-char string')
        I.may_raise('ValueError', 'uuid.UUID(bytes)')
    return T('uuid', key, I.R(v), kinds=KU)


LIB['uuid.uuid4'] = LIB['uuid.uuid1'] = lambda I, a, k: T('uuid4', uid(I, 'uuid'), kinds=KU)
LIB['time.mktime'] = _mk('mktime', frozenset(['float']))
LIB['time.time'] = lambda I, a, k: T('time', uid(I, 'time'), kinds=frozenset(['float']))
LIB['time.sleep'] = lambda I, a, k: None
LIB['decimal.Decimal'] = lambda I, a, k: _dec(I, a)


def _dec(I, a):
    v = I.R(a[0])
    if isinstance(v, Term) and v.op in ('str', 'repr') and I.kinds(v.args[0]) <= NUM:
        v = v.args[0]
    return T('Decimal', v, kinds=frozenset(['float']))


# ------------------------------------------------------------------ random
@ext('random.randint', 'random.randrange')
def _(I, a, k):
    a = [I.R(x) for x in a]
    I.event('random.randint', a, k)
    for x in a:
        if not I.has_kind(x, ['int', 'bool']):
            raise I.exc('TypeError', 'randint() of non-integer %s' % show(I.R(x)))
    lo, hi = I.R(a[0]), I.R(a[1])
    if I.order(lo, hi) > 0:
        raise I.exc('ValueError', 'empty range for randrange()')
    lo, hi = I.R(lo), I.R(hi)
    t = T('randint', lo, hi, uid(I, 'random'), kinds=INT)
    l = lo if isinstance(lo, int) else I.rng_of(lo)[0] if isinstance(lo, Term) and I.lin(lo)[1] == 0 else None
    h = hi if isinstance(hi, int) else I.rng_of(hi)[2] if isinstance(hi, Term) and I.lin(hi)[1] == 0 else None
    I.F.rng[t] = (l, False, h, False)
    if l is not None and l == h and isinstance(lo, int):
        return l
    return t


LIB['random.seed'] = lambda I, a, k: None


@ext('random.random')
def _(I, a, k):
    t = T('random', uid(I, 'random'), kinds=frozenset(['float']))
    I.F.rng[t] = (0, False, 1, True)
    return t


@ext('random.uniform')
def _(I, a, k):
    return T('uniform', I.R(a[0]), I.R(a[1]), uid(I, 'random'), kinds=frozenset(['float']))


@ext('random.choice')
def _(I, a, k):
    v = I.U(I.R(a[0]))
    I.event('random.choice', a, k)
    if isinstance(v, (HList, tuple)):
        items = v.items if isinstance(v, HList) else v
        if not items:
            raise I.exc('IndexError', 'Cannot choose from an empty sequence')
        if len(items) <= 8:
            return I.R(items[I.split(list(range(len(items))), 'random.choice')])
        return T('choice', uid(I, 'random'), kinds=STR if all(isinstance(x, str) for x in items) else ALLK, ascii=True)
    if isinstance(v, str):
        return T('choicestr', v, uid(I, 'random'), kinds=STR, ascii=True)
    return T('choice', v, uid(I, 'random'))


# ------------------------------------------------------------------ urllib
COMP = ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')
URLD = ':/?#;@[]%&=+'


def url_nt(I, vals):
    return NT(vals, COMP)


@ext('urllib.parse.urlparse')
def _(I, a, k):
    u = I.R(a[0])
    if not I.has_kind(u, ['str']):
        if I.has_kind(u, ['none']):
            return url_nt(I, [b''] * 6)
        raise I.exc('AttributeError', 'decode')
    u = I.R(u)
    if isinstance(u, str):
        return url_nt(I, list(_up.urlparse(u)))
    if u.op == 'urlunparse':
        return url_nt(I, list(u.args))
    r = natural(I, lambda s: tuple(_up.urlparse(s)), [u], ':/?#;@[]')
    if r is not MISSING:
        return url_nt(I, list(r))
    return url_nt(I, [T('url.' + c, u, kinds=STR) for c in COMP])


@ext('urllib.parse.urlsplit')
def _(I, a, k):
    r = LIB['urllib.parse.urlparse'](I, a, k)
    s, n, p, pa, q, f = r.items
    if I.truth(pa):
        p = I.mk_cat(p, ';', pa)
    return NT([s, n, p, q, f], ('scheme', 'netloc', 'path', 'query', 'fragment'))


@ext('urllib.parse.urlunparse')
def _(I, a, k):
    p = [I.R(x) for x in I.iterate(a[0])]
    if len(p) != 6:
        raise I.exc('ValueError', 'urlunparse needs six components')
    if all_const(p):
        return _up.urlunparse(p)
    src = None
    for c, x in zip(COMP, p):
        if isinstance(x, Term) and x.op == 'url.' + c and (src is None or x.args[0] is src):
            src = x.args[0]
        else:
            src = False
            break
    if src not in (None, False):
        return src
    def f(*xs):
        return _up.urlunparse(xs)
    r = natural(I, f, p, URLD)
    if r is not MISSING:
        return r
    r = unparse_known(I, p)
    if r is not None:
        return r
    return T('urlunparse', *p, kinds=STR)


def unparse_known(I, p):
    """urlunparse with constant emptiness of all parts but the path"""
    s, n, pa, pr, q, f = p
    if pr != '' or any(isinstance(x, Term) and I.F.truth.get(x) is None and not x.fresh for x in (s, n, q, f)):
        return None
    if not isinstance(pa, Term):
        pass
    elif pa.op == 'cat' and isinstance(pa.args[0], str) and pa.args[0].startswith('/') and not pa.args[0].startswith('//'):
        pass
    else:
        return None
    out = []
    if s:
        out += [s, ':']
    if not n and isinstance(s, Term):
        return None
    if n or s in _up.uses_netloc and s and not (isinstance(pa, str) and pa.startswith('//')):
        out += ['//', n]
        if isinstance(pa, str) and pa and not pa.startswith('/'):
            out.append('/')
    out.append(pa)
    if q:
        out += ['?', q]
    if f:
        out += ['#', f]
    return I.mk_cat(*out)


@ext('urllib.parse.urlunsplit')
def _(I, a, k):
    p = list(I.iterate(a[0]))
    return LIB['urllib.parse.urlunparse'](I, [(p[0], p[1], p[2], '', p[3], p[4])], k)


@ext('urllib.parse.urljoin')
def _(I, a, k):
    a = [I.R(x) for x in a]
    if all_const(a):
        return _up.urljoin(*a)
    r = natural(I, _up.urljoin, a, URLD + '.')
    if r is not MISSING:
        return r
    return T('urljoin', *a, kinds=STR)


@ext('urllib.parse.urldefrag')
def _(I, a, k):
    u = I.R(a[0])
    if isinstance(u, str):
        return NT(list(_up.urldefrag(u)), ('url', 'fragment'))
    return NT([T('url.nofrag', u, kinds=STR), T('url.fragment', u, kinds=STR)], ('url', 'fragment'))


def _quote(name):
    def f(I, a, k):
        v = I.R(a[0])
        safe = I.R(a[1]) if len(a) > 1 else I.R(k.get('safe', '/' if name == 'quote' else ''))
        if isinstance(v, (str, bytes)) and isinstance(safe, str):
            return getattr(_up, name)(v, safe)
        if not I.has_kind(v, ['str', 'bytes']):
            raise I.exc('TypeError', 'quote_from_bytes() expected bytes')
        v = I.R(v)
        if isinstance(v, Term) and v.op == 'cat':
            return I.mk_cat(*[f(I, [x] + list(a[1:]), k) for x in v.args])
        if name == 'quote' and safe == '':
            return T('quote_all', v, kinds=STR, ascii=True, nochars='/#?&=+:;@{}[]\\ "<>|^`!\'()*$,')
        return T(name, v, safe, kinds=STR, ascii=True) if safe != ('/' if name == 'quote' else '') else T(name, v, kinds=STR, ascii=True)
    return f


def _unquote(name):
    def f(I, a, k):
        v = I.R(a[0])
        if isinstance(v, str):
            return getattr(_up, name)(v)
        inv = name[2:]
        if isinstance(v, Term) and (v.op == inv or v.op == 'quote_all' and name == 'unquote'):
            return v.args[0]
        if isinstance(v, Term) and v.op == 'cat':
            # pieces decode on their own unless an escape could run from one into the next
            if all(x.rfind('%') < 0 or x.rfind('%') <= len(x) - 3 if isinstance(x, str) else x.op in ('quote', 'quote_all', inv) or I.free_of(x, '%') for x in v.args):
                return I.mk_cat(*[f(I, [x], k) for x in v.args])
        if isinstance(v, Term) and I.free_of(v, '%') and (name == 'unquote' or I.free_of(v, '+')):
            return v
        return T(name, v, kinds=STR)
    return f


def _pathlib(I, a, k):
    v = I.R(a[0])

    def as_uri(I, a, k):
        p = v
        if isinstance(p, str):
            p = posixpath.normpath(p)
        else:
            r = natural(I, posixpath.normpath, [p], './')
            if r is not MISSING:
                p = r
        if isinstance(p, str) and not p.startswith('/'):
            raise I.exc('ValueError', "relative path can't be expressed as a file URI")
        return I.mk_cat('file://', I.call_ext('urllib.parse.quote', [p], {}))
    ob = I.new_obj(I.BUILTINS['object'])
    ob.cls = I.make_class('Path', [I.BUILTINS['object']], {'as_uri': Builtin('as_uri', as_uri)})
    return ob


LIB['pathlib.Path'] = LIB['pathlib.PurePath'] = LIB['pathlib.PosixPath'] = _pathlib


for _n in ('quote', 'quote_plus'):
    LIB['urllib.parse.' + _n] = _quote(_n)
for _n in ('unquote', 'unquote_plus'):
    LIB['urllib.parse.' + _n] = _unquote(_n)


@ext('urllib.parse.urlencode')
def _(I, a, k):
    v = I.U(I.R(a[0]))
    if isinstance(v, HDict):
        pairs = list(v.ents.values())
    else:
        pairs = [tuple(I.unpack(p, 2)) for p in list(I.iterate(v))]
    return T('urlencode', tuple((I.U(I.R(x)), I.U(I.R(y))) for x, y in pairs), I.truth(k.get('doseq', a[1] if len(a) > 1 else False)), kinds=STR, ascii=True)


LIB['urllib.parse.parse_qs'] = _mk('parse_qs', DICT)
LIB['urllib.parse.parse_qsl'] = _mk('parse_qsl', LIST)


@ext('urllib.request.urlopen')
def _(I, a, k):
    h = Handle('urlopen', tuple(I.R(x) for x in a), I.epoch)
    h.site = I.loc()
    I.event('urlopen', a, k, h)
    if I.faults:
        I.may_raise('OSError', 'urlopen')
    h.content = T('content', I.R(a[0]), 'rb', kinds=BYTES)
    if ('fs', 'urlopen') in I.F.misc:
        h.content = I.F.misc[('fs', 'urlopen')](I.R(a[0]))
        if h.content is None:
            raise I.exc('OSError', 'HTTP Error 404: Not Found')
    I.handles.append(h)
    return h


LIB['urllib.request.pathname2url'] = LIB['urllib.request.url2pathname'] = lambda I, a, k: T('pathurl', I.R(a[0]), kinds=STR)


# ------------------------------------------------------------------ os
def _path(name, nargs=None, kinds=STR):
    pf = getattr(posixpath, name)

    def f(I, a, k):
        a = [I.R(x) for x in a]
        for x in a:
            need_str(I, x)
        a = [I.R(x) for x in a]
        if all_const(a):
            return pf(*a)
        r = natural(I, pf, a, './~')
        if r is not MISSING:
            return r
        if name in ('split', 'splitext'):
            return (T('os.path.%s.0' % name, *a, kinds=STR), T('os.path.%s.1' % name, *a, kinds=STR))
        if name == 'isabs':
            return starts(I, a[0], '/')
        return T('os.path.' + name, *a, kinds=kinds)
    return f


for _n in ('join', 'dirname', 'basename', 'normpath', 'split', 'splitext', 'isabs'):
    LIB['os.path.' + _n] = _path(_n)


@ext('os.path.commonprefix')
def _commonprefix(I, a, k):
    v = I.U(I.R(a[0]))
    items = [I.R(x) for x in I.iterate(v)]
    if not items:
        return ''
    for x in items:
        need_str(I, x)

    def two(x, y):
        if x is y or I.same(x, y):
            return x
        p = list(x.args) if isinstance(x, Term) and x.op == 'cat' else [x]
        q = list(y.args) if isinstance(y, Term) and y.op == 'cat' else [y]
        out = []
        while p and q:
            u, w = p[0], q[0]
            if isinstance(u, str) and isinstance(w, str):
                n = len(posixpath.commonprefix([u, w]))
                out.append(u[:n])
                if n < len(u) and n < len(w):
                    break
                p[:1] = [u[n:]] if u[n:] else []
                q[:1] = [w[n:]] if w[n:] else []
            elif not isinstance(u, str) and not isinstance(w, str) and I.same(u, w):
                out.append(u)
                p.pop(0)
                q.pop(0)
            else:
                # the pieces may begin alike
                chars = [c for c in '/:?#%{}' if I.free_of(I.mk_cat(*p), c) or I.free_of(I.mk_cat(*q), c) or all(isinstance(z, Term) and I.free_of(z, c) for z in (u, w) if isinstance(z, Term))]
                if isinstance(u, str) and I.free_of(w, u[0]) or isinstance(w, str) and I.free_of(u, w[0]):
                    break
                if I.truth(T('alike', I.mk_cat(*p), I.mk_cat(*q), kinds=BOOL)):
                    m = T('alike.prefix', I.mk_cat(*p), I.mk_cat(*q), kinds=STR, nochars=''.join(chars))
                    m.fresh = True
                    out.append(m)
                break
        return I.mk_cat('', *out)
    r = items[0]
    for x in items[1:]:
        r = two(r, x)
    return r


def _fsq(name):
    def f(I, a, k):
        v = I.R(a[0])
        I.event('os.path.' + name, a, k)
        d = I.F.misc.get(('fs', name))
        if d is not None:
            return I.truth(d(v))
        return I.truth(T('os.path.' + name, v, kinds=BOOL))
    return f


for _n in ('isfile', 'isdir', 'exists', 'islink'):
    LIB['os.path.' + _n] = _fsq(_n)


def _abspath(I, a, k):
    v = I.R(a[0])
    if isinstance(v, str) and v.startswith('/'):
        return posixpath.normpath(v)
    if isinstance(v, Term) and v.op == 'os.path.abspath':
        return v
    if isinstance(v, Term) and starts(I, v, '/'):
        r = natural(I, posixpath.normpath, [v], './')
        if r is not MISSING:
            return r
    return T('os.path.abspath', v, kinds=STR)


LIB['os.path.abspath'] = LIB['os.path.realpath'] = _abspath
LIB['os.path.expanduser'] = _mk('os.path.expanduser', STR)
LIB['os.path.relpath'] = _mk('os.path.relpath', STR)
LIB['os.getcwd'] = lambda I, a, k: T('cwd', kinds=STR)
LIB['os.listdir'] = _mk('listdir', LIST)
LIB['os.environ.get'] = lambda I, a, k: a[1] if len(a) > 1 else None
for _n in ('os.system', 'os.popen', 'os.remove', 'os.unlink', 'os.rename', 'os.makedirs', 'os.mkdir', 'os.rmdir',
           'shutil.rmtree', 'subprocess.Popen', 'subprocess.call', 'subprocess.check_output', 'subprocess.run',
           'pickle.loads', 'pickle.load', 'marshal.loads', 'ctypes.CDLL', 'runpy.run_path', 'importlib.import_module'):
    LIB[_n] = _danger(_n)


# ------------------------------------------------------------------ re
def _flags_ok(a, k):
    return not k and (len(a) <= 2)


class _Re(object):
    pass


def re_obj(I, pat, flags=0):
    return T('re', pat, flags, kinds=OBJ)


@ext('re.compile')
def _(I, a, k):
    p = I.R(a[0])
    fl = I.R(a[1]) if len(a) > 1 else I.R(k.get('flags', 0))
    if isinstance(fl, Ext):
        fl = getattr(_re, fl.name.split('.')[-1])
    return re_obj(I, p, int(fl) if isinstance(fl, int) else 0)


def re_op(op):
    def f(I, a, k):
        p = I.R(a[0])
        fl = k.get('flags', a[2] if len(a) > 2 else 0)
        fl = I.R(fl)
        if isinstance(fl, Ext):
            fl = getattr(_re, fl.name.split('.')[-1])
        return re_apply(I, op, p, int(fl), list(a[1:2]))
    return f


def _sre(p):
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    try:
        return sp.parse(p)
    except Exception:
        return None


def re_encode(I, p, s):
    """subject with abstract parts replaced by one private character each, when the pattern cannot look into the
    parts: every character it names is known not to occur in them, and negated classes are repeated without bound"""
    if not isinstance(p, str) or not isinstance(s, Term):
        return None
    parts = s.args if s.op == 'cat' else (s,)
    tree = _sre(p)
    if tree is None:
        return None
    chars, ok = set(), [True]

    def cls(items, rep):
        neg = any(str(o) == 'NEGATE' for o, _ in items)
        for o, v in items:
            n = str(o)
            if n == 'LITERAL':
                chars.add(chr(v))
            elif n == 'RANGE':
                if v[1] - v[0] > 64:
                    ok[0] = False
                chars.update(chr(x) for x in range(v[0], min(v[1], v[0] + 64) + 1))
            elif n == 'CATEGORY' and 'SPACE' in str(v) and 'NOT' not in str(v):
                chars.update(' \t\r\n')
            elif n != 'NEGATE':
                ok[0] = False
        if neg and not rep:
            ok[0] = False

    def walk(seq, rep):
        for o, v in seq:
            n = str(o)
            if n == 'LITERAL':
                chars.add(chr(v))
            elif n == 'NOT_LITERAL':
                chars.add(chr(v))
                ok[0] = ok[0] and rep
            elif n == 'IN':
                cls(v, rep)
            elif n == 'ANY':
                chars.add('\n')
                ok[0] = ok[0] and rep
            elif n == 'SUBPATTERN':
                walk(v[-1], False)
            elif n in ('MAX_REPEAT', 'MIN_REPEAT'):
                walk(v[2], v[0] <= 1 and str(v[1]) == 'MAXREPEAT' and len(v[2]) == 1)
            elif n == 'BRANCH':
                for b in v[1]:
                    walk(b, False)
            elif n == 'AT' and 'BOUNDARY' not in str(v):
                pass
            else:
                ok[0] = False
    walk(tree, False)
    if not ok[0]:
        return None
    enc, tab = [], []
    for a in parts:
        if isinstance(a, str):
            enc.append(a)
        elif isinstance(a, Term) and a.fresh and all(I.free_of(a, c) for c in chars):
            enc.append(chr(0xE000 + len(tab)))
            tab.append(a)
        else:
            return None

    def dec(x):
        if not isinstance(x, str):
            return x
        return I.mk_cat(*[tab[ord(c) - 0xE000] if 0xE000 <= ord(c) < 0xE000 + len(tab) else c for c in x])
    return ''.join(enc), dec


def re_reject(I, op, p, s):
    """an anchored pattern that the constant head of s already contradicts"""
    if not isinstance(p, str) or not isinstance(s, Term) or s.op != 'cat' or not isinstance(s.args[0], str):
        return False
    tree = _sre(p)
    if tree is None:
        return False
    seq = []

    def flat(t):
        for o, v in t:
            if str(o) == 'SUBPATTERN':
                if not flat(v[-1]):
                    return False
            else:
                seq.append((o, v))
                if str(o) not in ('LITERAL', 'IN', 'ANY', 'AT', 'NOT_LITERAL'):
                    return False
        return True
    flat(tree)
    head, i, anchored = s.args[0], 0, op in ('match', 'fullmatch')
    for o, v in seq:
        n = str(o)
        if n == 'AT':
            if 'BEGINNING' in str(v) and i == 0:
                anchored = True
                continue
            break
        if n not in ('LITERAL', 'IN', 'ANY', 'NOT_LITERAL') or i >= len(head):
            break
        c = ord(head[i])
        i += 1
        if n == 'LITERAL' and c != v or n == 'NOT_LITERAL' and c == v:
            return anchored
        if n == 'IN':
            neg = any(str(a) == 'NEGATE' for a, _ in v)
            hit = False
            for a, b in v:
                if str(a) == 'LITERAL':
                    hit = hit or b == c
                elif str(a) == 'RANGE':
                    hit = hit or b[0] <= c <= b[1]
                elif str(a) != 'NEGATE':
                    return False
            if hit == neg:
                return anchored
    return False


def re_needs(I, p, s):
    """the pattern needs a character that s does not have"""
    tree = _sre(p) if isinstance(p, str) and isinstance(s, Term) else None

    def walk(t):
        for o, v in t:
            n = str(o)
            if n == 'LITERAL' and I.free_of(s, chr(v)):
                return True
            if n == 'SUBPATTERN' and walk(v[-1]):
                return True
            if n in ('MAX_REPEAT', 'MIN_REPEAT') and v[0] > 0 and walk(v[2]):
                return True
        return False
    return tree is not None and walk(tree)


JUNK = '~q\u00e9_'


def re_cells(op, p, fl, cs):
    """the spans of the groups, None without match; the same for every digit and every other letter or MISSING"""
    c = _re.compile(p, fl)
    out = MISSING
    for i in range(10):
        for st in (0, 1, 3, 7):
            w = ''.join(x if isinstance(x, str) else str((i + st * j) % 10) if x.op == 'digit' else JUNK[(i + j) % len(JUNK)] for j, x in enumerate(cs))
            m = getattr(c, op)(w)
            r = None if m is None else tuple(m.span(g) for g in range(c.groups + 1))
            if out is not MISSING and r != out:
                return MISSING
            out = r
    return out


def re_apply(I, op, p, fl, a):
    s = I.R(a[0])
    if isinstance(p, Term) and p.op == 're':
        p, fl = p.args
    if not I.has_kind(s, ['str', 'bytes']):
        raise I.exc('TypeError', 'expected string or bytes-like object')
    s = I.R(s)
    if isinstance(s, (str, bytes)) and isinstance(p, (str, bytes)):
        m = getattr(_re, op)(p, s, fl)
        if op in ('match', 'search', 'fullmatch'):
            return None if m is None else T('rematch', p, op, s, fl, kinds=OBJ)
        return lift(I, m)
    if op in ('match', 'search', 'fullmatch') and not fl and (re_reject(I, op, p, s) or re_needs(I, p, s)):
        return None
    cs = I.cells(s) if op in ('match', 'search', 'fullmatch') and isinstance(p, str) and isinstance(s, Term) else None
    if cs is not None:
        r = re_cells(op, p, fl, cs)
        if r is not MISSING:
            return None if r is None else T('rematchv', p, tuple(None if x < 0 else I.mk_cat(*cs[x:y]) for x, y in r), kinds=OBJ)
    e = re_encode(I, p, s) if not fl else None
    if e is not None:
        m = getattr(_re, op)(p, e[0])
        if op == 'findall':
            return I.new_list([tuple(e[1](y) for y in x) if isinstance(x, tuple) else e[1](x) for x in m])
        return None if m is None else T('rematchv', p, (e[1](m.group(0)),) + tuple(e[1](x) for x in m.groups()), kinds=OBJ)
    if op in ('match', 'search', 'fullmatch'):
        if I.truth(T('re.' + op, p, s, fl, kinds=BOOL)):
            return T('rematch', p, op, s, fl, kinds=OBJ)
        return None
    return T('re.' + op, p, s, fl, kinds=LIST)


for _n in ('match', 'search', 'fullmatch', 'findall'):
    LIB['re.' + _n] = re_op(_n)


@ext('re.sub')
def _(I, a, k):
    a = [I.U(I.R(x)) for x in a]
    if isinstance(a[0], Term) and a[0].op == 're' and not a[0].args[1]:
        a[0] = a[0].args[0]
    if all_const(a):
        return _re.sub(*a)
    if isinstance(a[0], str) and len(a) == 3 and not k:
        e = (a[2], lambda x: x) if isinstance(a[2], str) else re_encode(I, a[0], a[2])
        if e is not None and (not isinstance(a[1], (str, Term))):
            out, pos = [], 0
            for m in _re.finditer(a[0], e[0]):
                out.append(e[1](e[0][pos:m.start()]))
                out.append(I.call(a[1], [T('rematchv', a[0], (e[1](m.group(0)),) + tuple(e[1](x) for x in m.groups()), kinds=OBJ)], {}))
                pos = m.end()
            out.append(e[1](e[0][pos:]))
            return I.mk_cat(*out)
        if e is not None and isinstance(a[1], str) and '\\' not in a[1]:
            return e[1](_re.sub(a[0], a[1], e[0]))
    return T('re.sub', *[x for x in a], kinds=STR)


@ext('re.split')
def _(I, a, k):
    a = [I.R(x) for x in a]
    if all_const(a):
        return I.new_list(_re.split(*a))
    return T('re.split', *a, kinds=LIST)


LIB['re.escape'] = lambda I, a, k: _re.escape(I.R(a[0])) if isinstance(I.R(a[0]), str) else T('re.escape', I.R(a[0]), kinds=STR)


def re_attr(I, o, name):
    p, fl = o.args
    if name in ('match', 'search', 'fullmatch', 'findall'):
        return Builtin('re.' + name, lambda I, a, k: re_apply(I, name, p, fl, a))
    if name == 'pattern':
        return p
    if name in ('sub', 'split'):
        return Builtin('re.' + name, lambda I, a, k: LIB['re.' + name](I, [p] + list(a), k))
    return MISSING


def _groups(p):
    try:
        c = _re.compile(p)
        return c.groups, c.groupindex
    except Exception:
        return None, {}


def optional_groups(p):
    """group numbers that may be unmatched (inside an optional / alternative part)"""
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    out = set()

    def walk(seq, opt):
        for op, av in seq:
            n = str(op)
            if n == 'SUBPATTERN':
                if opt and av[0]:
                    out.add(av[0])
                walk(av[-1], opt)
            elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                walk(av[2], opt or av[0] == 0)
            elif n == 'BRANCH':
                for b in av[1]:
                    walk(b, True)
            elif n in ('ASSERT', 'ASSERT_NOT'):
                walk(av[1], opt)
    walk(sp.parse(p), False)
    return out


def mk_group(I, m, g):
    p, op, s, fl = m.args
    if isinstance(s, (str, bytes)) and isinstance(p, (str, bytes)):
        mm = getattr(_re, op)(p, s, fl)
        return mm.group(g)
    if isinstance(p, str):
        n, idx = _groups(p)
        i = idx.get(g, g)
        if isinstance(i, str) or n is None or i > n:
            raise I.exc('IndexError', 'no such group')
        names = {v: k for k, v in idx.items()}
        return I.R(T('group', m, names.get(i, i), kinds=frozenset(['none', 'str']) if i in optional_groups(p) else STR, nochars=''))
    return I.R(T('group', m, g, kinds=frozenset(['none', 'str'])))


def rematchv_group(I, o, g):
    p, gs = o.args
    g = I.R(g)
    i = _groups(p)[1].get(g, g)
    if not isinstance(i, int) or i >= len(gs):
        raise I.exc('IndexError', 'no such group')
    return gs[i]


def rematchv_attr(I, o, name):
    p, gs = o.args
    if name == 'group':
        return Builtin('group', lambda I, a, k: rematchv_group(I, o, a[0] if a else 0) if len(a) < 2 else tuple(rematchv_group(I, o, x) for x in a))
    if name == '__getitem__':
        return Builtin('group', lambda I, a, k: rematchv_group(I, o, a[0]))
    if name == 'groups':
        return Builtin('groups', lambda I, a, k: tuple(gs[1:]))
    if name == 'groupdict':
        return Builtin('groupdict', lambda I, a, k: I.new_dict([(n, gs[i]) for n, i in _groups(p)[1].items()]))
    return MISSING


def rematch_attr(I, o, name):
    p = o.args[0]
    if name == 'group':
        return Builtin('group', lambda I, a, k: mk_group(I, o, I.R(a[0]) if a else 0) if len(a) < 2 else tuple(mk_group(I, o, I.R(x)) for x in a))
    if name == '__getitem__':
        return Builtin('group', lambda I, a, k: mk_group(I, o, I.R(a[0])))
    if name == 'groupdict' and isinstance(p, str):
        return Builtin('groupdict', lambda I, a, k: I.new_dict([(g, mk_group(I, o, g)) for g in _groups(p)[1]]))
    if name == 'groups' and isinstance(p, str):
        return Builtin('groups', lambda I, a, k: tuple(mk_group(I, o, i + 1) for i in range(_groups(p)[0])))
    if name in ('start', 'end', 'span'):
        return Builtin(name, lambda I, a, k: T('re.' + name, o, *[I.R(x) for x in a], kinds=INT))
    if name == 'string':
        return o.args[2]
    return MISSING


# ------------------------------------------------------------------ buffers, handles
def buf_value(I, b):
    return I.mk_bcat(*b.parts) if b.isbytes else I.mk_cat(*b.parts)


def c_bytesio(I, c, a, k):
    b = Buf(c.name != 'StringIO', I.epoch)
    b.cls = c
    if a and I.R(a[0]) is not None:
        b.parts.append(I.R(a[0]))
    return b


def _bwrite(I, a, k):
    b = I.U(I.R(a[0]))
    v = I.R(a[1])
    if not I.has_kind(v, ['bytes'] if b.isbytes else ['str']):
        raise I.exc('TypeError', 'a bytes-like object is required' if b.isbytes else 'string required')
    I.touch(b)
    b.parts.append(I.R(v))
    return None


BUFM = {'write': _bwrite,
        'getvalue': lambda I, a, k: buf_value(I, I.U(a[0])),
        'read': lambda I, a, k: buf_value(I, I.U(a[0])),
        'close': lambda I, a, k: None, 'flush': lambda I, a, k: None,
        'seek': lambda I, a, k: None,
        'writelines': lambda I, a, k: [_bwrite(I, [a[0], x], {}) for x in list(I.iterate(a[1]))] and None,
        '__enter__': lambda I, a, k: a[0], '__exit__': lambda I, a, k: None}


def _hclose(I, a, k):
    h = a[0]
    I.touch(h)
    h.closed = True
    I.event('close', [h], {})
    return None


def _hread(I, a, k):
    h = a[0]
    if h.closed:
        raise I.exc('ValueError', 'I/O operation on closed file')
    if I.faults:
        I.may_raise('OSError', 'read')
    I.event('read', [h], {})
    return h.content if h.content is not None else T('content', h.args, uid(I, 'read'))


HANDLEM = {'read': _hread, 'close': _hclose, '__enter__': lambda I, a, k: a[0],
           '__exit__': lambda I, a, k: _hclose(I, a, k), 'readlines': lambda I, a, k: T('readlines', a[0].content, kinds=LIST),
           'write': lambda I, a, k: I.event('write', a, k), 'fileno': lambda I, a, k: T('fileno', a[0], kinds=INT),
           'getcode': lambda I, a, k: T('getcode', a[0].content, kinds=INT)}


def stream_writer(I, enc):
    def make(I, a, k):
        o = I.new_obj(I.LIBVAL['codecs.StreamWriter'])
        o.attrs['stream'] = a[0]
        o.attrs['@enc'] = enc
        return o
    return Builtin('codecs.getwriter', make)


@ext('codecs.getwriter')
def _(I, a, k):
    return stream_writer(I, I.R(a[0]))


@ext('codecs.encode')
def _(I, a, k):
    return I.mk_encode(I.R(a[0]), I.R(a[1]) if len(a) > 1 else 'utf-8')


@ext('codecs.decode')
def _(I, a, k):
    return decode(I, a[0], I.R(a[1]) if len(a) > 1 else 'utf-8')


@ext('io.open')
def _(I, a, k):
    return do_open(I, a, k)


@ext('codecs.open')
def _(I, a, k):
    a = [I.R(x) for x in a]
    if len(a) > 2:
        a, k = a[:2], dict(k, encoding=a[2])
    return do_open(I, a, k)


def _sw_write(I, a, k):
    o = a[0]
    s = need_str(I, a[1])
    return I.call(I.getattr_(o.attrs['stream'], 'write'), [I.mk_encode(s, o.attrs['@enc'])], {})


# ------------------------------------------------------------------ copy / weakref / misc
def deep(I, v, memo):
    v = I.R(v)
    if isinstance(v, Proxy):
        return Proxy(deep(I, v.ref, memo))
    if not isinstance(v, Obj) or isinstance(v, (Cls, Fn, Builtin, Mod, Ext)):
        if isinstance(v, tuple):
            return tuple(deep(I, x, memo) for x in v)
        return v
    if v in memo:
        return memo[v]
    if isinstance(v, HSet):
        n = HSet(v.cls, I.epoch)
        memo[v] = n
        n.ents = dict(v.ents)
        n.nsym = v.nsym
        return n
    if isinstance(v, HDict):
        n = HDict(v.cls, I.epoch)
        memo[v] = n
        n.attrs = {k: deep(I, x, memo) for k, x in v.attrs.items()}
        n.ents = {h: (deep(I, k, memo), deep(I, x, memo)) for h, (k, x) in v.ents.items()}
        n.nsym = v.nsym
        return n
    if isinstance(v, HList):
        n = HList((), v.cls, I.epoch)
        memo[v] = n
        n.attrs = {k: deep(I, x, memo) for k, x in v.attrs.items()}
        n.items = [deep(I, x, memo) for x in v.items]
        return n
    if type(v) is Obj:
        m = I.mro_get(I.cls_of(v), '__deepcopy__')
        if m is not None:
            return I.call(m, [v, I.new_dict()], {})
        n = Obj(v.cls, I.epoch)
        n.site = I.loc()
        memo[v] = n
        n.attrs = {k: deep(I, x, memo) for k, x in v.attrs.items()}
        return n
    if isinstance(v, BoundM):
        return BoundM(v.func, deep(I, v.self_, memo))
    raise Unsupported('deepcopy of %s' % show(v))


LIB['copy.deepcopy'] = lambda I, a, k: deep(I, a[0], {})


@ext('copy.copy')
def _(I, a, k):
    v = I.U(I.R(a[0]))
    if isinstance(v, HSet):
        return I.new_set(list(I.iterate(v)))
    if isinstance(v, HDict):
        n = HDict(v.cls, I.epoch)
        n.attrs = dict(v.attrs)
        n.ents, n.nsym = dict(v.ents), v.nsym
        return n
    if isinstance(v, HList):
        n = HList(v.items, v.cls, I.epoch)
        n.attrs = dict(v.attrs)
        return n
    if type(v) is Obj:
        n = Obj(v.cls, I.epoch)
        n.attrs = dict(v.attrs)
        return n
    return v


def _proxy(I, a, k):
    v = I.U(I.R(a[0]))
    if v is None or isinstance(v, (str, bytes, int, float, tuple)) or type(v) in (HDict, HList) and v.cls is not None and v.cls.builtin or \
            isinstance(v, Term) and I.kinds(v) <= ALLK - OBJ:
        raise I.exc('TypeError', 'cannot create weak reference to %s' % show(v))
    return Proxy(v) if isinstance(v, Obj) and not isinstance(v, Ext) else v


LIB['weakref.proxy'] = _proxy
LIB['weakref.ref'] = lambda I, a, k: Builtin('ref', lambda I, aa, kk: a[0])
LIB['inspect.isclass'] = lambda I, a, k: isinstance(I.U(I.R(a[0])), (Cls,)) or isinstance(I.R(a[0]), Ext) and I.R(a[0]).name in I.LIBVAL and isinstance(I.LIBVAL[I.R(a[0]).name], Cls)
LIB['inspect.isfunction'] = lambda I, a, k: isinstance(I.U(I.R(a[0])), Fn)
LIB['inspect.ismethod'] = lambda I, a, k: isinstance(I.U(I.R(a[0])), BoundM)
LIB['inspect.isgenerator'] = lambda I, a, k: isinstance(I.U(I.R(a[0])), NatIter)


@ext('inspect.getmro')
def _(I, a, k):
    return tuple(I.R(a[0]).mro)


@ext('inspect.getmembers')
def _(I, a, k):
    o = I.U(I.R(a[0]))
    names = [x for x in I.iterate(B['dir'](I, [o], {}))]
    out = []
    for n in names:
        v = I.getattr_(o, n, None)
        if len(a) < 2 or I.truth(I.call(a[1], [v], {})):
            out.append((n, v))
    return I.new_list(out)


@ext('imp.find_module')
def _(I, a, k):
    n = I.R(a[0])
    I.event('imp.find_module', a, k)
    what = I.split(['file', 'package', 'missing'], 'module %s is a' % show(n))
    if what == 'package':
        return (None, T('modpath', n, kinds=STR), T('moddesc', n, kinds=frozenset(['tuple'])))
    if what == 'file':
        h = Handle('imp.find_module', (n,), I.epoch)
        h.site = I.loc()
        I.handles.append(h)
        return (h, T('modpath', n, kinds=STR), T('moddesc', n, kinds=frozenset(['tuple'])))
    raise I.exc('ImportError', 'No module named')


@ext('imp.load_module')
def _(I, a, k):
    I.event('imp.load_module', a, k)
    I.may_raise('ImportError', 'imp.load_module')
    if I.faults:
        I.may_raise('SyntaxError', 'imp.load_module')
    return T('module', I.R(a[0]), kinds=OBJ)


LIB['operator.itemgetter'] = lambda I, a, k: Builtin('itemgetter', lambda I, b, kk: I.getitem(b[0], a[0]) if len(a) == 1 else tuple(I.getitem(b[0], x) for x in a))
LIB['operator.attrgetter'] = lambda I, a, k: Builtin('attrgetter', lambda I, b, kk: I.getattr_(b[0], I.R(a[0])))
LIB['operator.methodcaller'] = lambda I, a, k: Builtin('methodcaller', lambda I, b, kk: I.call(I.getattr_(b[0], I.R(a[0])), list(a[1:]), k))
for _n, _o in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE')):
    LIB['operator.' + _n] = (lambda o: lambda I, a, k: I.compare(o, a[0], a[1]))(_o)
for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('mod', 'Mod'), ('or_', 'BitOr'), ('and_', 'BitAnd'), ('xor', 'BitXor')):
    LIB['operator.' + _n] = (lambda o: lambda I, a, k: I.binop(o, a[0], a[1]))(_o)
LIB['operator.not_'] = lambda I, a, k: not I.truth(a[0])
LIB['operator.contains'] = lambda I, a, k: I.contains(a[0], a[1])
LIB['operator.getitem'] = lambda I, a, k: I.getitem(a[0], a[1])
LIB['operator.is_'] = lambda I, a, k: I.is_(a[0], a[1])
LIB['operator.is_not'] = lambda I, a, k: not I.is_(a[0], a[1])

LIB['validate_email.validate_email'] = lambda I, a, k: I.truth(T('validate_email', I.R(a[0]), kinds=BOOL))
LIB['sys.exc_info'] = lambda I, a, k: (I.excs[-1].obj.cls, I.excs[-1].obj, None) if I.excs else (None, None, None)
LIB['sys.getsizeof'] = _mk('sizeof', INT)

# logging ---------------------------------------------------------------


def _noop(I, a, k):
    return None


for _n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'addHandler', 'setLevel', 'basicConfig', 'disable'):
    LIB['logging.' + _n] = _noop
LIB['logging.getLogger'] = lambda I, a, k: I.LOGGER
LIB['logging.NullHandler'] = lambda I, a, k: I.LOGGER
LIB['warnings.warn'] = _noop
LIB['warnings.simplefilter'] = _noop


# six -------------------------------------------------------------------
@ext('six.with_metaclass')
def _(I, a, k):
    return WithMeta(a[0], a[1:])


LIB['six.b'] = lambda I, a, k: _six_b(I, a[0])


def _six_b(I, v):
    v = need_str(I, v)
    if isinstance(v, Term) and not is_ascii(v):
        I.may_raise('UnicodeEncodeError', 'six.b')
    return I.mk_encode(v, 'latin-1')


LIB['six.u'] = lambda I, a, k: a[0]
LIB['six.ensure_str'] = lambda I, a, k: I.mk_decode(a[0], 'utf-8') if I.has_kind(a[0], ['bytes']) else a[0]
LIB['six.ensure_text'] = LIB['six.ensure_str']
LIB['six.ensure_binary'] = lambda I, a, k: I.mk_encode(a[0], 'utf-8') if I.has_kind(a[0], ['str']) else a[0]


def _six_it(m):
    def f(I, a, k):
        return mk_iter(I, I.call(I.getattr_(a[0], m), [], {}))
    return f


for _n, _m in (('iteritems', 'items'), ('iterkeys', 'keys'), ('itervalues', 'values')):
    LIB['six.' + _n] = _six_it(_m)
for _n, _m in (('viewitems', 'items'), ('viewkeys', 'keys'), ('viewvalues', 'values')):
    LIB['six.' + _n] = (lambda m: lambda I, a, k: I.call(I.getattr_(a[0], m), [], {}))(_m)
LIB['six.next'] = LIB['six.advance_iterator'] = do_next
LIB['six.reraise'] = lambda I, a, k: _reraise(I, a)
LIB['six.raise_from'] = lambda I, a, k: _reraise(I, [None, a[0]])
LIB['six.python_2_unicode_compatible'] = lambda I, a, k: a[0]
LIB['six.add_metaclass'] = lambda I, a, k: Builtin('add_metaclass', lambda I, b, kk: _add_meta(I, a[0], b[0]))
LIB['six.callable'] = lambda I, a, k: callable_(I, a[0])
LIB['six.get_method_function'] = LIB['six.get_unbound_function'] = lambda I, a, k: I.U(I.R(a[0])).func if isinstance(I.R(a[0]), BoundM) else a[0]


def _add_meta(I, meta, c):
    return I.call(meta, [c.name, tuple(c.bases), I.new_dict(c.ns.items())], {})


def _reraise(I, a):
    v = I.U(I.R(a[1])) if len(a) > 1 else None
    if v is None:
        v = I.instantiate(I.R(a[0]), [], {})
    for e in I.excs:
        if e.obj is v:
            raise e
    r = Raised(v)
    r.site = I.loc()
    raise r


# opaque http libraries ---------------------------------------------------
def opaque(I, name, a, k):
    r = T('call', name, uid(I, name), kinds=OBJ)
    I.event(name, a, k, r)
    if I.faults:
        I.may_raise('Exception', name)
    return r


EXTPREFIX = [(p, opaque) for p in ('tornado.', 'requests.', 'werkzeug.', 'webapp2.', 'flask.', 'webapp2', 'httplib.')]


def term_call_opaque(I, f, a, k):
    """method call on a value created by an opaque library"""
    root, path = f, []
    while isinstance(root, Term) and root.op == 'attr':
        path.append(root.args[1])
        root = root.args[0]
    if isinstance(root, Term) and (root.op == 'call' or root.note in ('opaque', 'callback')):
        nm = (root.args[0] if root.op == 'call' else show(root)) + ''.join('.' + p for p in reversed(path))
        ks = I.F.misc.get(('retkinds', nm), ALLK)
        r = T('ret', root, nm, uid(I, nm), kinds=ks, note='opaque')
        I.event(nm, a, k, r)
        return r
    return MISSING


# native helpers for the prelude -------------------------------------------
def n_is_gen(I, a, k):
    v = I.R(a[0])
    return isinstance(v, NatIter) and isinstance(v.it, _interp.ThreadGen)


def n_gen_send(I, a, k):
    g = I.R(a[0]).it
    try:
        v = next(g)
        while True:
            v = g.send(v)
    except StopIteration:
        return getattr(g, 'ret', None)


def n_gen_throw(I, a, k):
    raise Unsupported('throw into generator-based context manager')


def n_get_slot(I, a, k):
    raise Unsupported('get_slot')


# ------------------------------------------------------------------ installation
def install(I):
    def cls(name, bases=None, meth=None, module='builtins'):
        c = Cls(name, bases if bases is not None else [I.C_object], {}, None)
        c.mro = I.c3(c) if c.bases else [c]
        c.builtin = True
        c.module = module
        for n, f in (meth or {}).items():
            c.ns[n] = Builtin('%s.%s' % (name, n), f)
        return c

    I.C_object = cls('object', [])

    def obj_init(I, a, k):
        c = I.cls_of(a[0])
        n = I.mro_get(c, '__new__')
        if (len(a) > 1 or k) and not isinstance(n, Fn):
            raise I.exc('TypeError', '%s() takes no arguments' % c.name)
        return None

    def obj_setattr(I, a, k):
        o = I.U(I.R(a[0]))
        I.touch(o)
        o.attrs[I.R(a[1])] = a[2]

    def obj_getattribute(I, a, k):
        return I.getattr_(a[0], I.R(a[1]))
    I.C_object.ns.update({
        '__init__': Builtin('object.__init__', obj_init),
        '__new__': Builtin('object.__new__', lambda I, a, k: I.alloc(I.R(a[0]), a[1:], k)),
        '__setattr__': Builtin('object.__setattr__', obj_setattr),
        '__getattribute__': Builtin('object.__getattribute__', obj_getattribute),
    })
    I.C_type = cls('type')
    I.C_type.ns['__new__'] = Builtin('type.__new__', type_new)
    I.C_type.ns['__init__'] = Builtin('type.__init__', _noop)
    I.C_type.ns['__call__'] = Builtin('type.__call__', lambda I, a, k: type_call(I, a, k))
    I.C_list = cls('list', meth=LISTM)
    I.C_dict = cls('dict', meth=DICTM)
    I.C_dict.ns['fromkeys'] = Wrap('staticmethod', Builtin('dict.fromkeys', _fromkeys))
    I.C_set = cls('set', meth=SETM)
    I.C_frozenset = cls('frozenset', [I.C_set])
    I.C_tuple = cls('tuple', meth=TUPLEM)
    I.C_str = cls('str', meth=STRM)
    I.C_str.ns['maketrans'] = Wrap('staticmethod', Builtin('maketrans', lambda I, a, k: T('maketrans', *[I.R(x) for x in a])))
    I.C_bytes = cls('bytes', meth=BYTESM)
    I.C_int = cls('int')
    I.C_bool = cls('bool', [I.C_int])
    I.C_float = cls('float', meth={'is_integer': lambda I, a, k: I.truth(T('is_integer', I.R(a[0]), kinds=BOOL)) if isinstance(I.R(a[0]), Term) else I.R(a[0]).is_integer()})
    I.C_complex = cls('complex')
    I.C_NoneType = cls('NoneType')
    I.C_function = cls('function')
    I.C_module = cls('module')
    I.C_property = cls('property')
    I.C_classmethod = cls('classmethod')
    I.C_staticmethod = cls('staticmethod')
    I.C_proxytype = cls('ProxyType', module='weakref')
    I.C_slice = cls('slice')
    I.C_iter = cls('iterator')
    I.C_date = cls('datetime.date', meth=DATEM, module='datetime')
    I.C_datetime = cls('datetime.datetime', [I.C_date], meth=DATETIMEM, module='datetime')
    for c in (I.C_date, I.C_datetime):
        for n in list(LIB):
            if n.startswith(c.name + '.') and '.' not in n[len(c.name) + 1:]:
                c.ns[n.rsplit('.', 1)[1]] = Wrap('staticmethod', Builtin(n, LIB[n]))
    I.C_tzinfo = cls('datetime.tzinfo', module='datetime')
    I.C_uuid = cls('uuid.UUID', module='uuid')
    I.C_partial = cls('partial', module='functools')
    I.C_partial.ns['__call__'] = Builtin('partial.__call__', partial_call)
    I.C_odict = cls('OrderedDict', [I.C_dict], module='collections')
    I.C_ddict = cls('defaultdict', [I.C_dict], module='collections')
    I.C_bytesio = cls('BytesIO', meth=BUFM, module='io')
    I.C_stringio = cls('StringIO', meth=BUFM, module='io')
    I.C_handle = cls('file', meth=HANDLEM)
    I.C_logger = cls('Logger', module='logging')
    for n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'addHandler', 'setLevel', 'isEnabledFor'):
        I.C_logger.ns[n] = Builtin('Logger.' + n, _noop)
    I.C_nt = cls('namedtuple', [I.C_tuple])
    I.C_nt.ns['geturl'] = Builtin('geturl', lambda I, a, k: LIB['urllib.parse.urlunparse'](I, [a[0].items], {}))
    I.C_nt.ns['_replace'] = Builtin('_replace', lambda I, a, k: NT([k.get(f, x) for f, x in zip(a[0].fields, a[0].items)], a[0].fields))
    I.C_sw = cls('StreamWriter', module='codecs')
    I.C_sw.ns['write'] = Builtin('StreamWriter.write', _sw_write)
    I.C_jsonenc = cls('json.JSONEncoder', module='json')
    I.C_jsonenc.ns['default'] = Builtin('JSONEncoder.default', LIB['json.JSONEncoder.default'])
    I.C_jsonenc.ns['encode'] = Builtin('JSONEncoder.encode', LIB['json.JSONEncoder.encode'])
    I.C_jsonenc.ns['__init__'] = Builtin('JSONEncoder.__init__', _noop)
    I.C_sixiter = cls('six.Iterator', module='six')

    I.LOGGER = Obj(I.C_logger)
    I.LOGGER.label = 'logger'

    Bu = I.BUILTINS
    for n, f in B.items():
        Bu[n] = Builtin(n, f)
    for n, c in (('object', I.C_object), ('type', I.C_type), ('list', I.C_list), ('dict', I.C_dict), ('set', I.C_set),
                 ('frozenset', I.C_frozenset), ('tuple', I.C_tuple), ('str', I.C_str), ('bytes', I.C_bytes),
                 ('bytearray', I.C_bytes), ('int', I.C_int), ('bool', I.C_bool), ('float', I.C_float), ('property', I.C_property),
                 ('classmethod', I.C_classmethod), ('staticmethod', I.C_staticmethod), ('slice', I.C_slice), ('complex', I.C_complex)):
        Bu[n] = c
    Bu['__name__'] = '__main__'
    Bu['NotImplemented'] = T('sym', 'NotImplemented', kinds=OBJ)
    Bu['Ellipsis'] = Ellipsis
    Bu['__debug__'] = True

    # exception hierarchy
    made = {}

    def mkexc(pc):
        if pc is object:
            return I.C_object
        if pc in made:
            return made[pc]
        c = cls(pc.__name__, [mkexc(b) for b in pc.__bases__])
        made[pc] = c
        Bu[pc.__name__] = c
        return c
    for n in dir(_pyb):
        v = getattr(_pyb, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            mkexc(v)
    Bu['IOError'] = Bu['EnvironmentError'] = Bu['OSError']
    I.C_BaseException = Bu['BaseException']

    def exc_init(I, a, k):
        o = a[0]
        I.touch(o)
        o.attrs['args'] = tuple(a[1:])
    I.C_BaseException.ns['__init__'] = Builtin('BaseException.__init__', exc_init)

    I.PYCLS = {bool: I.C_bool, int: I.C_int, float: I.C_float, str: I.C_str, bytes: I.C_bytes, tuple: I.C_tuple,
               NT: I.C_nt, Handle: I.C_handle, NatIter: I.C_iter, View: I.C_iter}
    I.KCLS = {'none': I.C_NoneType, 'bool': I.C_bool, 'int': I.C_int, 'float': I.C_float, 'str': I.C_str,
              'bytes': I.C_bytes, 'list': I.C_list, 'dict': I.C_dict, 'tuple': I.C_tuple, 'set': I.C_set,
              'date': I.C_date, 'datetime': I.C_datetime, 'uuid': I.C_uuid}
    I.C_iter.ns['__iter__'] = Builtin('iterator.__iter__', lambda I, a, k: a[0])
    I.C_iter.ns['__next__'] = Builtin('iterator.__next__', lambda I, a, k: do_next(I, a))
    I.C_iter.ns['next'] = Builtin('iterator.next', lambda I, a, k: do_next(I, a))
    I.C_iter.ns['close'] = Builtin('iterator.close', lambda I, a, k: I.R(a[0]).it.close() if hasattr(I.R(a[0]).it, 'close') else None)
    I.C_iter.ns['send'] = Builtin('iterator.send', lambda I, a, k: gen_send1(I, a))

    def gen_send1(I, a):
        g = I.R(a[0]).it
        try:
            return g.send(a[1]) if g.state != 'new' else next(g)
        except StopIteration:
            raise I.exc('StopIteration')
    I.KATTR = {}
    for k, c in I.KCLS.items():
        names = set()
        for b in c.mro:
            if b is not I.C_object:
                names |= set(b.ns)
        I.KATTR[k] = names
    I.KATTR['datetime'] |= set(DTF)
    I.KATTR['date'] |= set(DTF[:3])
    I.KATTR['uuid'] |= set(['hex', 'bytes', 'int', 'urn', 'bytes_le'])
    I.CLSKIND = {'str': ['str'], 'int': ['int', 'bool'], 'bool': ['bool'], 'float': ['float'], 'bytes': ['bytes'],
                 'list': ['list'], 'dict': ['dict'], 'tuple': ['tuple'], 'set': ['set'], 'NoneType': ['none'],
                 'Mapping': ['dict'], 'MutableMapping': ['dict'], 'datetime.date': ['date', 'datetime'],
                 'datetime.datetime': ['datetime'], 'uuid.UUID': ['uuid'], 'frozenset': [], 'OrderedDict': [],
                 'defaultdict': [], 'function': [], 'type': [], 'ProxyType': [], 'partial': [], 'complex': [],
                 'BytesIO': [], 'object': ALLK, 'MutableSequence': ['list'], 'Sequence': ['list', 'tuple', 'str', 'bytes'],
                 'Iterable': ['list', 'tuple', 'str', 'bytes', 'dict', 'set'], 'Number': ['int', 'float', 'bool'],
                 'Integral': ['int', 'bool'], 'Real': ['int', 'float', 'bool'], 'Set': ['set'], 'Hashable': ALLK,
                 'Sized': ['list', 'tuple', 'str', 'bytes', 'dict', 'set'], 'Decimal': []}
    I.EXTKIND = {'datetime.date': ['date', 'datetime'], 'datetime.datetime': ['datetime'], 'uuid.UUID': ['uuid'],
                 'collections.Mapping': ['dict'], 'datetime.timedelta': [], 'decimal.Decimal': []}
    I.ABC = {'Mapping': ['dict'], 'MutableMapping': ['dict'], 'Sequence': ['list', 'tuple', 'str', 'bytes'],
             'MutableSequence': ['list'], 'Iterable': ['list', 'tuple', 'str', 'bytes', 'dict', 'set'],
             'Number': ['int', 'float', 'bool'], 'Integral': ['int', 'bool'], 'Real': ['int', 'float', 'bool'],
             'Set': ['set'], 'Sized': ['list', 'tuple', 'str', 'bytes', 'dict', 'set']}

    V = I.LIBVAL
    abc = {}
    for n in ('Sequence', 'MutableSequence', 'Iterable', 'Set', 'Sized', 'Hashable', 'Callable', 'Iterator'):
        abc[n] = cls(n, module='collections')
        V['collections.' + n] = V['collections.abc.' + n] = abc[n]
    for n in ('Number', 'Integral', 'Real'):
        V['numbers.' + n] = cls(n, module='numbers')
    V.update({
        'six.string_types': (I.C_str,), 'six.integer_types': (I.C_int,), 'six.text_type': I.C_str, 'six.binary_type': I.C_bytes,
        'six.class_types': (I.C_type,), 'six.PY2': False, 'six.PY3': True, 'six.BytesIO': I.C_bytesio, 'six.StringIO': I.C_stringio,
        'six.Iterator': I.C_sixiter, 'six.MAXSIZE': 2 ** 63 - 1, 'six.moves.cStringIO': I.C_stringio, 'io.BytesIO': I.C_bytesio,
        'io.StringIO': I.C_stringio, 'functools.partial': I.C_partial, 'collections.OrderedDict': I.C_odict,
        'collections.defaultdict': I.C_ddict, 'datetime.date': I.C_date, 'datetime.datetime': I.C_datetime,
        'datetime.tzinfo': I.C_tzinfo, 'uuid.UUID': I.C_uuid, 'json.JSONEncoder': I.C_jsonenc, 'weakref.ProxyType': I.C_proxytype,
        'weakref.ProxyTypes': (I.C_proxytype,), 'weakref.CallableProxyType': I.C_proxytype,
        'codecs.StreamWriter': I.C_sw, 'os.name': 'posix', 'os.sep': '/', 'os.linesep': '\n', 'os.path.sep': '/', 'os.pathsep': ':',
        'os.environ': I.new_dict(), 'sys.maxsize': 2 ** 63 - 1, 'sys.platform': 'linux',
        'sys.version_info': NT((3, 9, 16, 'final', 0), ('major', 'minor', 'micro', 'releaselevel', 'serial')),
        'sys.float_info': NT((1.7976931348623157e308, 2.2250738585072014e-308), ('max', 'min')),
        'string.ascii_letters': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ', 'string.digits': '0123456789',
        'string.ascii_lowercase': 'abcdefghijklmnopqrstuvwxyz', 'string.ascii_uppercase': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ',
        'string.printable': 'abc', 'string.punctuation': '!"#$%&()*+,-./:;<=>?@[]^_`{|}~', 'string.hexdigits': '0123456789abcdefABCDEF',
        'types.FunctionType': I.C_function, 'types.GeneratorType': I.C_iter, 'types.MethodType': I.C_function,
        'types.ModuleType': I.C_module, 'typing.TYPE_CHECKING': False, 'abc.ABCMeta': I.C_type,
        're.error': cls('re.error', [Bu['Exception']], module='re'),
        'json.JSONDecodeError': cls('JSONDecodeError', [Bu['ValueError']], module='json'),
        'json.decoder.JSONDecodeError': None,
        'yaml.YAMLError': cls('YAMLError', [Bu['Exception']], module='yaml'),
        'math.inf': float('inf'), 're.IGNORECASE': 2, 're.I': 2, 're.MULTILINE': 8, 're.M': 8, 're.DOTALL': 16, 're.S': 16, 're.VERBOSE': 64,
        'logging.DEBUG': 10, 'logging.INFO': 20, 'logging.WARNING': 30, 'logging.ERROR': 40,
        'urllib.error.URLError': cls('URLError', [Bu['OSError']], module='urllib'),
    })
    V['json.decoder.JSONDecodeError'] = V['json.JSONDecodeError']
    Bu['YAMLError'] = V['yaml.YAMLError']
    for n in ('xrange', 'range'):
        V['six.moves.' + n] = Bu['range']
    for n in ('zip', 'map', 'filter', 'input'):
        V['six.moves.' + n] = Bu[n]
    V['six.moves.StringIO'] = I.C_stringio
    I.SIXMOVES = {'reduce': 'functools.reduce', 'zip_longest': 'itertools.zip_longest', 'cPickle': 'pickle',
                  'builtins': 'builtins', 'urllib': 'urllib', 'http_client': 'http.client'}
    I.ALIAS = {'collections.abc': 'collections', 'collections.abc.Mapping': 'collections.Mapping',
               'collections.abc.MutableMapping': 'collections.MutableMapping', 'importlib': 'importlib',
               'urlparse.urlparse': 'urllib.parse.urlparse', 'urllib.quote_plus': 'urllib.parse.quote_plus',
               'uuid.uuid1': 'uuid.uuid4'}
    I.EXTPREFIX = EXTPREFIX
    I.TIMES = times
    I.OPAQUE_BASES = ()
    I.CONSTRUCT = {
        I.C_str: c_str, I.C_int: c_int, I.C_float: c_float, I.C_bool: c_bool, I.C_list: c_list, I.C_tuple: c_tuple,
        I.C_dict: c_dict, I.C_odict: c_dict, I.C_ddict: c_defaultdict, I.C_set: c_set, I.C_frozenset: c_set, I.C_type: c_type,
        I.C_bytes: c_bytes, I.C_property: c_property, I.C_partial: c_partial, I.C_object: c_object, I.C_slice: c_slice,
        I.C_staticmethod: lambda I, c, a, k: Wrap('staticmethod', a[0]),
        I.C_classmethod: lambda I, c, a, k: Wrap('classmethod', a[0]),
        I.C_bytesio: c_bytesio, I.C_stringio: c_bytesio, I.C_datetime: c_datetime, I.C_date: c_date, I.C_uuid: c_uuid,
    }
    def kdate(I, o, name):
        if name in DTF and name not in ('replace',):
            ks = I.kinds(o)
            if ks <= frozenset(['date', 'datetime']) and not (name in DTF[3:] and ks <= KD):
                if o.op == 'datetime' or (o.op == 'date' and name in DTF[:3]):
                    return o.args[DTF.index(name)]
                return T('attr', o, name, kinds=INT if name != 'tzinfo' else frozenset(['none', 'obj']))
        return MISSING

    class TA(dict):
        def get(self, op, default=None):
            h = dict.get(self, op)
            def f(I, o, name):
                if h is not None:
                    r = h(I, o, name)
                    if r is not MISSING:
                        return r
                ks = I.kinds(o)
                if ks <= frozenset(['date', 'datetime']):
                    return kdate(I, o, name)
                if ks <= KU and name in ('hex', 'bytes', 'int', 'urn', 'bytes_le'):
                    return T('uuid.' + name, o, kinds={'hex': STR, 'urn': STR, 'int': INT}.get(name, BYTES), ascii=True,
                             nochars='/-{}#?&=:;+ "\r\n,' if name == 'hex' else '')
                return MISSING
            return f
    I.TERM_ATTR = TA({'re': re_attr, 'rematch': rematch_attr, 'rematchv': rematchv_attr})
    I.TERM_ITEM = {'rematch': lambda I, o, k: mk_group(I, o, k), 'rematchv': lambda I, o, k: rematchv_group(I, o, k)}
    I.TERM_ITER = {}
    I.TERM_CALL = [term_call_opaque]
    I.NATIVE = {'get_slot': Builtin('get_slot', n_get_slot), 'is_gen': Builtin('is_gen', n_is_gen),
                'gen_send': Builtin('gen_send', n_gen_send), 'gen_throw': Builtin('gen_throw', n_gen_throw)}
    for c in list(I.LIBVAL.values()):
        pass


def type_call(I, a, k):
    """type.__call__(cls, *args): plain instantiation"""
    c = a[0]
    meta, c.cls = c.cls, I.C_type
    try:
        return I.instantiate(c, a[1:], k)
    finally:
        c.cls = meta


def post(I):
    p = I.modules['prelude'].ns
    for v in p.values():
        if isinstance(v, Cls):
            v.module = 'prelude'
    V = I.LIBVAL
    V['collections.Mapping'] = V['collections.abc.Mapping'] = p['Mapping']
    V['collections.MutableMapping'] = V['collections.abc.MutableMapping'] = p['MutableMapping']
    V['collections.deque'] = p['deque']
    V['functools.reduce'] = p['reduce']
    V['functools.wraps'] = p['wraps']
    V['six.wraps'] = p['wraps']
    V['itertools.chain'] = p['chain']
    V['itertools.takewhile'] = p['takewhile']
    V['itertools.dropwhile'] = p['dropwhile']
    V['itertools.islice'] = p['islice']
    V['itertools.repeat'] = p['repeat']
    V['itertools.starmap'] = p['starmap']
    V['itertools.product'] = p['product']
    V['itertools.zip_longest'] = p['zip_longest']
    V['itertools.chain.from_iterable'] = p['chain_from_iterable']
    V['contextlib.closing'] = p['closing']
    V['contextlib.ExitStack'] = p['ExitStack']
    V['contextlib.contextmanager'] = p['contextmanager']
    V['tornado.gen.coroutine'] = p['coroutine']
    V['tornado.gen.Return'] = p['GenReturn']
    Fn_ = p['chain']
    I.LIBATTR = {Fn_: {'from_iterable': p['chain_from_iterable']}}
    Fn_.attrs['from_iterable'] = p['chain_from_iterable']
