# Models of library classes/functions, interpreted by the analyser like repository code.
from absint_native import is_gen, gen_send


class Mapping(object):
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True

    def keys(self):
        return [k for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def __eq__(self, other):
        if not isinstance(other, Mapping):
            return False
        return dict(self.items()) == dict(other.items())

    def __ne__(self, other):
        return not (self == other)


class MutableMapping(Mapping):
    __marker = object()

    def pop(self, key, default=__marker):
        try:
            value = self[key]
        except KeyError:
            if default is self.__marker:
                raise
            return default
        else:
            del self[key]
            return value

    def popitem(self):
        for key in self:
            value = self[key]
            del self[key]
            return key, value
        raise KeyError()

    def clear(self):
        for k in self.keys():
            del self[k]

    def update(self, other=(), **kwds):
        if isinstance(other, Mapping):
            for key in other:
                self[key] = other[key]
        elif hasattr(other, "keys"):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default


class deque(list):
    def __init__(self, iterable=(), maxlen=None):
        super(deque, self).__init__(iterable)

    def popleft(self):
        return self.pop(0)

    def appendleft(self, x):
        self.insert(0, x)

    def extendleft(self, xs):
        for x in xs:
            self.insert(0, x)


def reduce(function, sequence, *initial):
    it = iter(sequence)
    if initial:
        acc = initial[0]
    else:
        try:
            acc = next(it)
        except StopIteration:
            raise TypeError('reduce() of empty sequence with no initial value')
    for x in it:
        acc = function(acc, x)
    return acc


def chain(*its):
    for it in its:
        for x in it:
            yield x


def chain_from_iterable(its):
    for it in its:
        for x in it:
            yield x


def takewhile(pred, it):
    for x in it:
        if not pred(x):
            break
        yield x


def dropwhile(pred, it):
    drop = True
    for x in it:
        if drop and pred(x):
            continue
        drop = False
        yield x


def islice(it, *a):
    out = []
    n = a[0] if len(a) == 1 else a[1]
    start = 0 if len(a) == 1 else (a[0] or 0)
    i = 0
    for x in it:
        if n is not None and i >= n:
            break
        if i >= start:
            out.append(x)
        i += 1
    return iter(out)


def repeat(x, n):
    return iter([x for _ in range(n)])


def starmap(f, it):
    for a in it:
        yield f(*a)


def zip_longest(a, b, fillvalue=None):
    a, b = list(a), list(b)
    for i in range(max(len(a), len(b))):
        yield (a[i] if i < len(a) else fillvalue, b[i] if i < len(b) else fillvalue)


def product(a, b):
    for x in a:
        for y in b:
            yield (x, y)


def wraps(f, *a, **k):
    def deco(g):
        return g
    return deco


class GenReturn(Exception):
    def __init__(self, value=None):
        self.value = value


def coroutine(f):
    def wrapper(*a, **k):
        try:
            r = f(*a, **k)
            if is_gen(r):
                return gen_send(r)
            return r
        except GenReturn as e:
            return e.value
    return wrapper


def memberwise_any(it):
    for x in it:
        if x:
            return True
    return False


class closing(object):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        self.thing.close()


class _GCM(object):
    def __init__(self, gen):
        self.gen = gen

    def __enter__(self):
        return next(self.gen)

    def __exit__(self, t, v, tb):
        if t is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        from absint_native import gen_throw
        return gen_throw(self.gen, v)


def contextmanager(f):
    def helper(*a, **k):
        return _GCM(f(*a, **k))
    return helper


class PurePathStub(object):
    pass


class ExitStack(object):
    def __init__(self):
        self._cb = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        r = cm.__enter__()
        self._cb.append(cm)
        return r

    def callback(self, f, *a, **k):
        self._cb.append((f, a, k))
        return f

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, t, v, tb):
        while self._cb:
            c = self._cb.pop()
            if isinstance(c, tuple):
                c[0](*c[1], **c[2])
            else:
                c.__exit__(t, v, tb)
        return False
