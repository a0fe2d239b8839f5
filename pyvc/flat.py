"""Arrays as numpy stores them: a shape over a row-major buffer of symbolic length whose elements are terms.  Reshaping keeps
the buffer; conversions between fixed-width integers wrap exactly, conversions that round or reinterpret bits are
uninterpreted functions of the element (the same function on both sides of a specification)."""
import builtins
import z3
import numpy as np
from . import path as P
from .path import Unsupported
from .values import SymInt, SymBool, Real, Rat, is_sym, mk, mkb, simp, term, rterm, intlike
from . import seq as Q
from .env import SymArr, NUMPY, PNumpy, PMath

I, R = z3.IntSort(), z3.RealSort()


def sort(dt):
    return R if np.dtype(dt).kind == 'f' else I


def wrapel(dt, t):
    return Real(t) if np.dtype(dt).kind == 'f' else mk(t)


def uf(name, a, b, t):
    return wrapel(b, z3.Function(name, sort(a), sort(b))(t))


def elterm(dt, v):
    if np.dtype(dt).kind == 'f':
        return rterm(v)
    return term(v)


def convert(src, dt, v):
    """numpy's conversion of one element from type src to dt"""
    src, dt = np.dtype(src), np.dtype(dt)
    if src == dt:
        return v
    t = elterm(src, v)
    if dt.kind == 'b':
        return mk(z3.If(t == 0, z3.IntVal(0), z3.IntVal(1)))
    if dt.kind in 'iu' and src.kind in 'iub':
        i = np.iinfo(dt)
        if src.kind == 'b' or (np.iinfo(src).min >= i.min and np.iinfo(src).max <= i.max):
            return v
        m = 1 << (8 * dt.itemsize)
        return mk(simp((t - builtins.int(i.min)) % m + builtins.int(i.min)))
    if dt.kind == 'f' and src.kind in 'iub' and src.itemsize * 2 <= dt.itemsize:
        return Real(z3.ToReal(t))
    if dt.kind == 'f' and src.kind == 'f' and src.itemsize < dt.itemsize:
        return v
    return uf('convert %s %s' % (src, dt), src, dt, t)


def reinterpret(src, dt, v):
    src, dt = np.dtype(src), np.dtype(dt)
    if src == dt:
        return v
    if src.itemsize != dt.itemsize:
        raise Unsupported('bytes of %s read as %s' % (src, dt))
    if src.kind in 'iu' and dt.kind in 'iu':
        return convert(src, dt, v)
    t = elterm(src, v)
    if z3.is_app(t) and t.decl().name() == 'bits %s %s' % (dt, src):
        return wrapel(dt, t.arg(0))
    f, g = (z3.Function('bits %s %s' % x, sort(x[0]), sort(x[1])) for x in ((src, dt), (dt, src)))
    p = P.cur()
    p.assume(g(f(t)) == t)          # the same bits
    if dt.kind in 'iu':
        i = np.iinfo(dt)
        p.assume(z3.And(f(t) >= builtins.int(i.min), f(t) <= builtins.int(i.max)))
    return wrapel(dt, f(t))


def product(shape):
    return Q.fold('prod', shape) if isinstance(shape, Q.SymSeq) else PMath.prod(builtins.list(shape))


class Flat(SymArr):
    def __init__(self, shape, dtype, n, elem):
        SymArr.__init__(self, shape, dtype)
        self.n, self.elem = n, elem          # elem(z3 index) -> value
        self.shape = self.shape if isinstance(self.shape, Q.SymSeq) else builtins.tuple(self.shape)

    @property
    def size(self):
        return self.n

    def at(self, i):
        return self.elem(simp(term(i)))

    def copy(self, order='C'):
        return Flat(self.shape, self.dtype, self.n, self.elem)

    def astype(self, dt, *a, **k):
        e, src = self.elem, self.dtype
        return Flat(self.shape, dt, self.n, lambda i: convert(src, dt, e(i)))

    def view(self, dt):
        e, src = self.elem, self.dtype
        return Flat(self.shape, dt, self.n, lambda i: reinterpret(src, dt, e(i)))

    def reshape(self, *shape, **k):
        if len(shape) == 1 and not intlike(shape[0]):
            shape = shape[0]
        if isinstance(shape, Q.SymSeq):
            if Q.exists(shape, lambda d: d < 0):
                raise ValueError('negative dimensions')
            if builtins.bool(product(shape) != self.n):
                raise ValueError('cannot reshape array')
            return Flat(shape, self.dtype, self.n, self.elem)
        shape = builtins.list(shape)
        neg = [i for i, d in enumerate(shape) if builtins.bool(d == -1)]
        if len(neg) > 1:
            raise ValueError('can only specify one unknown dimension')
        for i, d in enumerate(shape):
            if i not in neg and builtins.bool(d < 0):
                raise ValueError('negative dimensions not allowed')
        if neg and len(shape) == 1:
            return Flat([self.n], self.dtype, self.n, self.elem)
        known = product([d for i, d in enumerate(shape) if i not in neg])
        if neg:
            if builtins.bool(known == 0) or builtins.bool(self.n % known != 0):
                raise ValueError('cannot reshape array')
            shape[neg[0]] = self.n // known
        elif builtins.bool(known != self.n):
            raise ValueError('cannot reshape array')
        return Flat(shape, self.dtype, self.n, self.elem)

    def flatten(self, order='C'):
        return self.reshape(-1)

    ravel = flatten

    def tobytes(self, order='C'):
        return RawBytes(self.dtype, self.n, self.elem)

    def tolist(self):
        if not isinstance(self.shape, Q.SymSeq) and len(self.shape) == 1:
            return FlatSeq(self.n, self.elem, self.dtype)
        raise Unsupported('nested lists of symbolic length')

    def item(self, *a):
        if a or builtins.bool(self.n != 1):
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return Scalar(self.elem(z3.IntVal(0)), self.dtype)

    def __getitem__(self, i):
        if isinstance(i, builtins.tuple) and not i and not isinstance(self.shape, Q.SymSeq) and not len(self.shape):
            return self.elem(z3.IntVal(0))
        raise Unsupported('element of a flat array')

    @property
    def nbytes(self):
        return self.n * self.dtype.itemsize


class Scalar:
    """a Python scalar taken out of an array"""

    def __init__(self, v, dtype):
        self.v, self.dtype = v, dtype


class FlatSeq(Q.SymSeq):
    """list of array elements"""

    def __init__(self, n, f, dtype):
        Q.SymSeq.__init__(self, n, f)
        self.eltype = np.dtype(dtype)

    def copy(self):
        return FlatSeq(self.n, self.f, self.eltype)


class RawBytes:
    """bytes: the elements of an array one after another"""
    __symseq__ = True
    __hash__ = None

    def __init__(self, dtype, n, elem):
        self.dtype, self.count, self.elem = np.dtype(dtype), n, elem

    @property
    def n(self):
        return self.count * self.dtype.itemsize

    def __eq__(self, o):
        if isinstance(o, builtins.bytes) and len(o) == 0:
            return self.count == 0
        if isinstance(o, RawBytes):
            raise Unsupported('comparison of symbolic bytes')
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, builtins.bytes) and len(o) == 0:
            return self.count != 0
        return NotImplemented

    def __bool__(self):
        return builtins.bool(self.count != 0)

    def __getattr__(self, k):
        raise Unsupported('symbolic bytes: %s' % k)


class FileBytes(RawBytes):
    """bytes read from a file: element i under a type is a function of the bytes and i"""

    def __init__(self, name, dtype, n):
        self.name = name
        RawBytes.__init__(self, dtype, n, lambda i: self.decode(dtype, i))

    def decode(self, dt, i):
        dt = np.dtype(dt)
        return wrapel(dt, z3.Function('%s as %s' % (self.name, dt), I, sort(dt))(i))


def fromiter(x, dtype=None, count=-1, **k):
    if isinstance(x, Q.SymSeq):
        if builtins.bool(count != -1):
            raise Unsupported('count')
        src = getattr(x, 'eltype', np.dtype(np.int64))
        if src.kind == 'f':
            src = src if src == np.dtype(dtype) else np.dtype(np.float64)
        return Flat([x.n], dtype, x.n, lambda i: convert(src, dtype, x.at(i)))
    return np.fromiter(x, dtype, count, **k)


def frombuffer(b, dtype=np.float64, count=-1, offset=0, **k):
    if isinstance(b, RawBytes):
        if builtins.bool(count != -1) or builtins.bool(offset != 0):
            raise Unsupported('part of a buffer')
        dt = np.dtype(dtype)
        if dt.itemsize == b.dtype.itemsize:
            n = b.count
        elif builtins.bool(b.n % dt.itemsize != 0):
            raise ValueError('buffer size must be a multiple of element size')
        else:
            n = b.n // dt.itemsize
        f = b.decode if isinstance(b, FileBytes) else lambda dt, i: reinterpret(b.dtype, dt, b.elem(i))
        return Flat([n], dt, n, lambda i: f(dt, i))
    return np.frombuffer(b, dtype, count, offset, **k)


_arr = NUMPY['array']


def array(x, dtype=None, *a, **k):
    if isinstance(x, FlatSeq):
        dt = x.eltype if dtype is None else np.dtype(dtype)
        if x.eltype.kind == 'S' or dt.kind == 'S':
            if x.eltype.kind != dt.kind:
                raise Unsupported('string conversion')
            return Flat([x.n], dt, x.n, x.at)
        return Flat([x.n], dt, x.n, lambda i: convert(x.eltype, dt, x.at(i)))
    if isinstance(x, Flat):
        return x.copy() if dtype is None else x.astype(dtype)
    return _arr(x, dtype, *a, **k)


for _n, _f in {'fromiter': fromiter, 'frombuffer': frombuffer, 'array': array, 'asarray': array}.items():
    NUMPY[_n] = _f
    setattr(PNumpy, _n, staticmethod(_f))
