"""Arrays whose zero pattern matters: how many blocks of a given size consist entirely of one value is a number that
depends on the array, the value and the block extents only (contract of reshape / == / sum along the inner axes)."""
import builtins
import z3
import numpy as np
from . import path as P
from .path import Unsupported
from .values import SymInt, Real, is_sym, mk, simp, term, intlike, rterm
from .env import SymArr, PMath


def tt(x):
    return simp(term(x))


def eq(a, b):
    """provably equal on this path"""
    c = simp(tt(a) == tt(b))
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return P.cur().solver.check(z3.Not(c)) == z3.unsat


def blocks(name, shape, value, size):
    """number of blocks of extents `size` whose elements all equal `value`"""
    ts = [tt(s) for s in size]
    f = z3.Function('blocks_%s_%s' % (name, value), *([z3.IntSort()] * len(ts) + [z3.IntSort()]))
    n = f(*ts)
    P.cur().assume(z3.And(n >= 0))
    return n


class Zarr(SymArr):
    """groups[k]: the axes source axis k is split into (outer to inner)"""

    def __init__(self, name, shape, dtype, groups=None):
        self.groups = [[s] for s in shape] if groups is None else groups
        SymArr.__init__(self, [d for g in self.groups for d in g], dtype)
        self.name, self.source = name, builtins.list(shape)

    def like(self, groups):
        return Zarr(self.name, self.source, self.dtype, groups)

    def copy(self):
        return self.like(self.groups)

    def reshape(self, *shape):
        if len(shape) == 1 and not intlike(shape[0]):
            shape = shape[0]
        shape = builtins.list(shape)
        neg = [k for k, d in enumerate(shape) if builtins.bool(d == -1)]
        if len(neg) > 1:
            raise ValueError('can only specify one unknown dimension')
        for r in self.split(shape, 0, neg[0] if neg else None):
            return self.like(r)
        raise Unsupported('reshape across axes')

    def split(self, shape, k, neg, at=0):
        """partitions of the target axes over the source axes"""
        if k == len(self.source):
            if at == len(shape):
                yield []
            return
        for end in range(at + 1, len(shape) - (len(self.source) - k - 1) + 1):
            g = shape[at:end]
            s = self.source[k]
            if neg is not None and at <= neg < end:
                rest = PMath.prod([d for i, d in enumerate(g) if at + i != neg])
                if not (isinstance(rest, builtins.int) and rest == 1):
                    if P.cur().solver.check(tt(s % rest) != 0) != z3.unsat:
                        continue
                g = [s // rest if at + i == neg else d for i, d in enumerate(g)]
            elif not (eq(PMath.prod(g), s) or self.divides(g, s)):
                continue
            for r in self.split(shape, k + 1, neg, end):
                yield [g] + r

    @staticmethod
    def divides(g, s):
        """[s // d, d] with d dividing s"""
        return len(g) == 2 and eq(g[0], s // g[1]) and P.cur().solver.check(tt(s % g[1]) != 0) == z3.unsat

    def cmp(self, o, positive):
        if not isinstance(o, (builtins.int, builtins.float, np.generic)):
            raise Unsupported('comparison')
        return Flag(self, o, positive)

    def __eq__(self, o):
        return self.cmp(o, True)

    def __ne__(self, o):
        return self.cmp(o, False)
    __hash__ = None


class Flag(SymArr):
    def __init__(self, a, value, positive):
        SymArr.__init__(self, a.shape, np.bool_)
        self.a, self.value, self.positive = a, float(value), positive

    def reshape(self, *s):
        return Flag(self.a.reshape(*s), self.value, self.positive)

    def inner(self, axis):
        """extents of the blocks the axes span, per source axis"""
        r = len(self.shape)
        ax = list(range(r)) if axis is None else [axis] if isinstance(axis, builtins.int) else list(axis)
        for v in ax:
            if not -r <= v < r:
                raise np.exceptions.AxisError('axis out of bounds')
        ax = {v % r for v in ax}
        size, left, k = [], [], 0
        for g in self.a.groups:
            mine = [k + i in ax for i in range(len(g))]
            k += len(g)
            real = [m for d, m in zip(g, mine) if not (isinstance(d, builtins.int) and d == 1)]
            if sorted(real) != real:
                raise Unsupported('blocks that are not contiguous')
            size.append(PMath.prod([d for d, m in zip(g, mine) if m]))
            left += [d for d, m in zip(g, mine) if not m]
        return size, left

    def sum(self, axis=None, *a, **k):
        if a or k:
            raise Unsupported('sum options')
        if axis is None:
            n = blocks(self.a.name, self.a.source, self.value, [1] * len(self.a.source))
            r = Real(z3.ToReal(n))
            return r if self.positive else PMath.prod(self.a.source) - r
        return Counts(self, *self.inner(axis))

    def all(self, axis=None, *a, **k):
        if axis is None:
            raise Unsupported('all')
        return Ind(self, *self.inner(axis))

    def mean(self, axis=None, *a, **k):
        if axis is None:
            return self.sum() / self.size
        raise Unsupported('mean')

    def astype(self, dt, *a, **k):
        return self

    def __invert__(self):
        return Flag(self.a, self.value, not self.positive)


class Counts(SymArr):
    def __init__(self, flag, size, left):
        SymArr.__init__(self, left, np.int64)
        self.flag, self.blk = flag, size

    def __eq__(self, o):
        return Ind(self.flag, self.blk, self.shape, o)
    __hash__ = None

    def __ge__(self, o):
        return Ind(self.flag, self.blk, self.shape, o)


class Ind(SymArr):
    """does the block consist of the value entirely (its count equals `want`)"""

    def __init__(self, flag, size, left, want=None):
        SymArr.__init__(self, left, np.bool_)
        self.flag, self.blk, self.want = flag, size, want

    def sum(self, axis=None, *a, **k):
        if axis is not None or a or k:
            raise Unsupported('sum options')
        full = PMath.prod(self.blk)
        f = self.flag
        if f.positive and (self.want is None or eq(self.want, full)):
            return Real(z3.ToReal(blocks(f.a.name, f.a.source, f.value, self.blk)))
        ts = [tt(s) for s in self.blk] + [tt(full if self.want is None else self.want)]
        g = z3.Function('other_%s_%s_%s' % (f.a.name, f.value, f.positive), *([z3.IntSort()] * (len(ts) + 1)))
        return Real(z3.ToReal(g(*ts)))

    def mean(self, axis=None, *a, **k):
        return self.sum(axis) / self.size
