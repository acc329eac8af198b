"""Path facts (the trace-partitioning key) and the exhaustive partition driver."""
from .values import *


class Facts(object):
    __slots__ = ('kinds', 'bind', 'ne', 'pair', 'ordp', 'rng', 'truth', 'misc')

    def __init__(self):
        self.kinds = {}
        self.bind = {}
        self.ne = {}
        self.pair = {}
        self.ordp = {}
        self.rng = {}
        self.truth = {}
        self.misc = {}

    def copy(self):
        f = Facts()
        f.kinds = dict(self.kinds)
        f.bind = dict(self.bind)
        f.ne = {k: set(v) for k, v in self.ne.items()}
        f.pair = dict(self.pair)
        f.ordp = dict(self.ordp)
        f.rng = dict(self.rng)
        f.truth = dict(self.truth)
        f.misc = dict(self.misc)
        return f


class Chooser(object):
    """enumerates every combination of case splits by prefix extension"""

    def __init__(self):
        self.prefix = []
        self.width = []
        self.pos = 0
        self.log = []

    def start(self):
        self.pos = 0
        self.log = []

    def choose(self, n, label, loc):
        if n == 1:
            return 0
        if self.pos == len(self.prefix):
            self.prefix.append(0)
            self.width.append(n)
        c = self.prefix[self.pos]
        if self.width[self.pos] != n:
            raise AssertionError('non deterministic replay: %r vs %r at %s' % (self.width[self.pos], n, label))
        self.pos += 1
        self.log.append((label, c, loc))
        return c

    def advance(self):
        del self.prefix[self.pos:]
        del self.width[self.pos:]
        while self.prefix:
            if self.prefix[-1] + 1 < self.width[-1]:
                self.prefix[-1] += 1
                return True
            self.prefix.pop()
            self.width.pop()
        return False
