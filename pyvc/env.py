"""Mechanical import of the code under proof: every run reads /repo's current source, instruments it
(function entry, loop heads, comprehensions over symbolic sequences) and executes it with the numeric
builtins, `math` and `numpy` names bound to versions that also accept symbolic values.  Nothing is
dropped from the source; on concrete values the instrumented code behaves as the original."""
import ast, builtins, importlib.abc, importlib.util, math, os, sys
import numpy as np
import z3
from . import path as P
from .path import Unsupported
from .values import SymInt, SymBool, Rat, Real, is_sym, sel, term, mk, simp, intlike, select
from . import seq as Q
from . import values as V

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'onnx_tool'


def anysym(xs):
    return any(is_sym(x) for x in xs)


# ------------------------------------------------------------------ builtins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.int, SymInt))

    def __call__(cls, *a, **k):
        if a and is_sym(a[0]):
            x = a[0]
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymBool):
                return mk(term(x))
            if isinstance(x, (Rat, Real)):
                return x.trunc()
        if a and isinstance(a[0], np.ndarray) and raw(a[0]) == object and a[0].size == 1:
            return cls(a[0].reshape(-1)[0])
        return builtins.int(*a, **k)

    def __eq__(cls, o):
        return o is builtins.int or o is cls

    def __hash__(cls):
        return hash(builtins.int)


class PInt(metaclass=_IntMeta):
    from_bytes = builtins.int.from_bytes


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Rat, Real))

    def __call__(cls, *a):
        if a and isinstance(a[0], Real):
            return a[0]
        if a and is_sym(a[0]):
            return Rat.of(mk(term(a[0])) if isinstance(a[0], SymBool) else a[0])
        return builtins.float(*a)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class PFloat(metaclass=_FloatMeta):
    fromhex = builtins.float.fromhex


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.list, Q.SymSeq))

    def __call__(cls, *a):
        if a and isinstance(a[0], Q.SymSeq):
            return a[0].copy()
        return builtins.list(*a)

    def __eq__(cls, o):
        return o is builtins.list or o is cls

    def __hash__(cls):
        return hash(builtins.list)

    def __getitem__(cls, k):
        return builtins.list[k]


class PList(metaclass=_ListMeta):
    pass


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.tuple, Q.SymSeq))

    def __call__(cls, *a):
        if a and isinstance(a[0], Q.SymSeq):
            return a[0].copy()
        return builtins.tuple(*a)

    def __eq__(cls, o):
        return o is builtins.tuple or o is cls

    def __hash__(cls):
        return hash(builtins.tuple)

    def __getitem__(cls, k):
        return builtins.tuple[k]


class PTuple(metaclass=_TupleMeta):
    pass


def p_len(x):
    if isinstance(x, Q.SymSeq):
        return x.n
    if hasattr(type(x), '__symseq__'):
        return x.n
    if isinstance(x, SymArr):
        if not x.shape:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    return builtins.len(x)


def _minmax(args, k, better, native):
    key, default = k.get('key'), k
    xs = args[0] if len(args) == 1 else args
    if isinstance(xs, Q.SymSeq):
        raise Unsupported('min/max of a symbolic sequence')
    if isinstance(xs, np.ndarray):
        xs = [xs[i] for i in builtins.range(xs.shape[0])]
    xs = builtins.list(xs)
    if key is None and anysym(xs):
        r = xs[0]
        for x in xs[1:]:
            c = better(x, r)
            r = sel(c, x, r)
        return r
    return native(xs, **k)


def p_max(*a, **k):
    return _minmax(a, k, lambda x, r: x > r, builtins.max)


def p_min(*a, **k):
    return _minmax(a, k, lambda x, r: x < r, builtins.min)


def p_sum(xs, start=0):
    if isinstance(xs, Q.SymSeq):
        return Q.fold_sum(xs, start)
    r = start
    for x in xs:
        r = r + x
    return r


def p_abs(x):
    return x.__abs__() if is_sym(x) else builtins.abs(x)


def p_round(x, n=None):
    if isinstance(x, OArr) and not x.ndim:
        x = x[()]
    if isinstance(x, (SymInt, Rat, Real)):
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


class p_range:
    """range with symbolic bounds"""

    def __new__(cls, *a):
        if not anysym(a):
            return builtins.range(*(builtins.int(x) if hasattr(x, 'dtype') else x for x in a))
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        else:
            lo, hi, st = a
        if isinstance(st, builtins.int) and st == 1:
            return Q.SymRange(lo, hi)
        from .tab import Tab
        if is_sym(st) and P.cur().values_of(st.t, 3) is None:
            if builtins.bool(st <= 0):
                raise Unsupported('range with a symbolic negative step')
            n = -((lo - hi) // st)
            n = sel(n > 0, n, 0)
            tl, ts = Q.T(lo), Q.T(st)

            def elem(j):            # by definition of range every element lies in [lo, hi)
                e = simp(tl + j * ts)
                P.cur().assume(z3.Implies(z3.And(j >= 0, j < Q.T(n)), z3.And(e >= tl, e < Q.T(hi))))
                return mk(e)
            return Q.SymSeq(n, elem)
        return builtins.range(*[P.cur().concretise(x.t) if is_sym(x) else x for x in (lo, hi, st)])


def p_sorted(xs, **k):
    if isinstance(xs, Q.SymSeq):
        raise Unsupported('sorting a symbolic sequence')
    return builtins.sorted(xs, **k)


def p_zip(*a, **k):
    if any(isinstance(x, Q.SymSeq) for x in a):
        return Q.zip_seq(a)
    return builtins.zip(*a, **k)


def p_enumerate(x, start=0):
    if isinstance(x, Q.SymSeq):
        return Q.enum_seq(x, start)
    return builtins.enumerate(x, start)


def p_reversed(x):
    if isinstance(x, Q.SymSeq):
        return x[::-1]
    return builtins.reversed(x)


def p_any(xs):
    if isinstance(xs, Q.SymSeq):
        raise Unsupported('any() over a symbolic sequence')
    for x in xs:
        if x:
            return True
    return False


def p_all(xs):
    if isinstance(xs, Q.SymSeq):
        raise Unsupported('all() over a symbolic sequence')
    for x in xs:
        if not x:
            return False
    return True


def p_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymInt):
            return PInt
        if isinstance(x, (Rat, Real)):
            return PFloat
        if isinstance(x, Q.SymSeq):
            return PList
    return builtins.type(*a)


def p_map(f, *xs):
    if any(isinstance(x, Q.SymSeq) for x in xs):
        if len(xs) != 1:
            raise Unsupported('map over several symbolic sequences')
        return Q.map_seq(f, xs[0])
    return builtins.map(f, *xs)


def p_bool(*a):
    if a and is_sym(a[0]):
        return builtins.bool(a[0])
    return builtins.bool(*a)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, SymBool))

    def __call__(cls, *a):
        return builtins.bool(*a)

    def __eq__(cls, o):
        return o is builtins.bool or o is cls

    def __hash__(cls):
        return hash(builtins.bool)


class PBool(metaclass=_BoolMeta):
    pass


class _CInt:
    """ctypes fixed-width integer of a symbolic value: the value modulo 2**bits"""

    def __init__(self, bits, signed, native):
        self.bits, self.signed, self.native = bits, signed, native

    def __call__(self, x=0):
        if not is_sym(x):
            return self.native(x)
        if not isinstance(x, SymInt):
            raise TypeError('an integer is required')
        m = 1 << self.bits
        v = x % m
        if self.signed:
            v = sel(v >= m // 2, v - m, v)
        r = type('c_int', (), {})()
        r.value = v
        return r


class _CTypes:
    def __getattr__(self, n):
        import ctypes
        f = getattr(ctypes, n)
        for bits in (8, 16, 32, 64):
            if n in ('c_uint%d' % bits, 'c_int%d' % bits):
                return _CInt(bits, n[2] == 'i', f)
        if n in ('c_ubyte', 'c_byte'):
            return _CInt(8, n == 'c_byte', f)
        return f


CTYPES = _CTypes()


def p_import(name, *a, **k):
    if name == 'ctypes':
        return CTYPES
    return MATH if name == 'math' else NP if name == 'numpy' else builtins.__import__(name, *a, **k)


BUILTINS = {'__import__': p_import, 'int': PInt, 'float': PFloat, 'list': PList, 'tuple': PTuple, 'bool': PBool, 'len': p_len, 'max': p_max, 'min': p_min,
            'sum': p_sum, 'abs': p_abs, 'round': p_round, 'range': p_range, 'sorted': p_sorted, 'zip': p_zip,
            'enumerate': p_enumerate, 'reversed': p_reversed, 'any': p_any, 'all': p_all, 'map': p_map}


# ------------------------------------------------------------------ math
class PMath:
    def __getattr__(self, n):
        f = getattr(math, n)
        if n in ('exp', 'log', 'sin', 'cos', 'tanh', 'atan', 'erf'):
            def g(x, *a):
                if is_sym(x) and not a:
                    from . import vals
                    return {'exp': vals.EXP, 'log': vals.LOG, 'sin': vals.SIN, 'cos': vals.COS, 'tanh': vals.TANH, 'atan': vals.ATAN, 'erf': vals.ERF}[n](x)
                return f(x, *a)
            return g
        return f

    @staticmethod
    def ceil(x):
        return x.__ceil__() if is_sym(x) else math.ceil(x)

    @staticmethod
    def floor(x):
        return x.__floor__() if is_sym(x) else math.floor(x)

    @staticmethod
    def trunc(x):
        return x.__trunc__() if is_sym(x) else math.trunc(x)

    @staticmethod
    def prod(xs, start=1):
        if isinstance(xs, Q.SymSeq):
            return Q.fold_prod(xs, start)
        r = start
        for x in xs:
            r = r * x
        return r

    @staticmethod
    def log2(x):
        if isinstance(x, SymInt):
            return V.log2(x)
        if is_sym(x):
            raise Unsupported('symbolic logarithm')
        return math.log2(x)

    @staticmethod
    def sqrt(x):
        if is_sym(x):
            return V.sqrt(x)
        return math.sqrt(x)


# ------------------------------------------------------------------ numpy
class OArr(np.ndarray):
    """object array of symbolic scalars that answers for the element type it stands for"""
    _dt = None

    def __array_finalize__(self, obj):
        self._dt = getattr(obj, '_dt', None)

    @property
    def dtype(self):
        return self._dt if self._dt is not None else np.ndarray.dtype.__get__(self)

    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        if dt == object:
            return self.copy()
        return tagged(np.frompyfunc(lambda v: _cast(dt, v), 1, 1)(self), dt)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        r = np.ndarray.__array_wrap__(self, arr, context, return_scalar)
        if isinstance(r, OArr) and context is not None and context[0].__name__ in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal'):
            r._dt = np.dtype(bool)
        return r

    def tolist(self):
        return [e.tolist() if isinstance(e, np.ndarray) else e for e in self] if self.ndim else self[()]

    def item(self, *a):
        return self.reshape(-1)[0]


def raw(x):
    return np.ndarray.dtype.__get__(x)


def tagged(x, dt):
    r = objarr(x)
    if raw(r) != object:
        return r
    if not isinstance(r, OArr):
        r = r.view(OArr)
    r = r.view(OArr)
    r._dt = None if dt is None or dt is object else np.dtype(dt)
    return r


def objarr(x):
    """object ndarray from nested lists that may hold symbolic scalars"""
    if isinstance(x, np.ndarray):
        return x
    if is_sym(x):
        a = np.empty((), dtype=object).view(OArr)
        a[()] = x
        return a

    def shp(v):
        if isinstance(v, (list, tuple)):
            s = [shp(e) for e in v]
            return (len(v),) + (s[0] if s else ())
        if isinstance(v, np.ndarray):
            return v.shape
        return ()
    s = shp(x)
    a = np.empty(s, dtype=object).view(OArr)
    for i in np.ndindex(s):
        v = x
        for k in i:
            v = v[k]
        a[i] = v
    return a


def hassym(x):
    if isinstance(x, np.ndarray):
        return raw(x) == object and any(is_sym(e) for e in x.reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(hassym(e) for e in x)
    return is_sym(x)


def _fold_arr(f, x, axis, keepdims, init=None):
    a = objarr(x)
    nd = a.ndim
    if axis is None:
        ax = tuple(range(nd))
    elif isinstance(axis, (tuple, list)):
        ax = tuple(int(v) % nd for v in axis)
    else:
        ax = (int(axis) % nd,)
    rest = [k for k in range(nd) if k not in ax]
    b = np.transpose(a, rest + list(ax)).reshape([a.shape[k] for k in rest] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        row = b[i]
        v = init
        for e in row:
            v = e if v is None else f(v, e)
        out[i] = v
    if keepdims:
        out = out.reshape([1 if k in ax else a.shape[k] for k in range(nd)])
    return out if out.ndim else out[()]


def _ufunc2(f):
    vf = np.frompyfunc(f, 2, 1)
    return lambda a, b: vf(objarr(a), objarr(b))


def _ufunc1(f):
    vf = np.frompyfunc(f, 1, 1)
    return lambda a: vf(objarr(a))


class PNumpy:
    """numpy; functions given symbolic elements work element by element, everything else is numpy itself"""

    def __getattr__(self, n):
        f = getattr(np, n)
        return f

    int64 = None


def _cast(dt, v):
    """element type conversion of a symbolic element (ranges are an assumption: no wrap-around)"""
    if dt is None:
        return v
    dt = np.dtype(dt)
    if dt.kind in 'iu' and isinstance(v, (Rat, Real)):
        return v.trunc()
    if dt.kind in 'iu' and isinstance(v, SymBool):
        return mk(term(v))
    if dt.kind == 'f' and isinstance(v, (SymInt, SymBool)):
        return Rat.of(mk(term(v)) if isinstance(v, SymBool) else v)
    return v


def np_array(x, dtype=None, *a, **k):
    if isinstance(x, Q.SymSeq):
        from .tab import from_seq
        return from_seq(x, dtype)
    if isinstance(x, SymArr):
        return x.copy() if dtype is None else x.astype(dtype)
    if isinstance(x, (builtins.list, builtins.tuple)) and any(isinstance(e, SymArr) for e in x):
        from . import vals
        if not all(vals.table(e) is not None for e in x):
            raise Unsupported('array of untracked arrays')
        r = vals.t_stack(x, 0)
        return r if dtype is None else r.astype(dtype)
    if hassym(x):
        old = x.dtype if isinstance(x, OArr) else None
        r = np.array(objarr(x), dtype=object)
        if dtype is not None and dtype is not object:
            r = np.frompyfunc(lambda v: _cast(dtype, v), 1, 1)(r)
            if not isinstance(r, np.ndarray):
                r = objarr(r)
        if dtype is None and old is None:
            dtype = np.float64 if any(isinstance(e, (Rat, Real)) for e in r.reshape(-1)) else np.bool_ if all(isinstance(e, (bool, SymBool)) for e in r.reshape(-1)) else np.int64
        return tagged(r, dtype if dtype is not None else old)
    return np.array(x, dtype, *a, **k)


def np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, SymArr):
        return x if dtype is None or np.dtype(dtype) == np.dtype(x.dtype) else x.astype(dtype)
    return np_array(x, dtype, *a, **k)


def np_prod(x, axis=None, dtype=None, keepdims=False, **k):
    if isinstance(x, Q.SymSeq):
        return Q.fold_prod(x, 1)
    if isinstance(x, SymArr):
        return _reduce_shape(x, axis, keepdims, dtype or x.dtype)
    if hassym(x):
        return _fold_arr(lambda a, b: a * b, x, axis, keepdims, 1)
    return np.prod(x, axis=axis, dtype=dtype, keepdims=keepdims, **k)


def np_sum(x, axis=None, dtype=None, keepdims=False, **k):
    if hasattr(type(x), 'inner'):
        return x.sum(axis)
    if isinstance(x, SymArr):
        return _reduce_shape(x, axis, keepdims, dtype or np.sum(np.zeros((1,), x.dtype)).dtype)
    if hassym(x):
        return _fold_arr(lambda a, b: a + b, x, axis, keepdims, 0)
    return np.sum(x, axis=axis, dtype=dtype, keepdims=keepdims, **k)


def np_max(x, axis=None, keepdims=False, **k):
    if hassym(x):
        return _fold_arr(lambda a, b: sel(b > a, b, a), x, axis, keepdims)
    return np.max(x, axis=axis, keepdims=keepdims, **k)


def np_min(x, axis=None, keepdims=False, **k):
    if hassym(x):
        return _fold_arr(lambda a, b: sel(b < a, b, a), x, axis, keepdims)
    return np.min(x, axis=axis, keepdims=keepdims, **k)


def lift2(name, f):
    nf = getattr(np, name)
    sf = _ufunc2(f)

    def g(a, b, *x, **k):
        if hasarr(a, b):
            return arr_op(name, (a, b), nf)
        if hassym(a) or hassym(b):
            return sf(a, b)
        return nf(a, b, *x, **k)
    return g


def lift1(name, f):
    nf = getattr(np, name)
    sf = _ufunc1(f)

    def g(a, *x, **k):
        if hasarr(a):
            return arr_op(name, (a,), nf)
        if hassym(a):
            return sf(a)
        return nf(a, *x, **k)
    return g


def np_where(c, *ab):
    if ab and hasarr(c, *ab):
        return arr_op('where', (c,) + ab, np.where)
    if ab and (hassym(c) or hassym(ab[0]) or hassym(ab[1])):
        return np.frompyfunc(lambda c, a, b: sel(c, a, b), 3, 1)(objarr(c), objarr(ab[0]), objarr(ab[1]))
    return np.where(c, *ab)


def np_clip(x, lo=None, hi=None, **k):
    if 'a_min' in k or 'min' in k:
        lo = k.pop('a_min', k.pop('min', None))
    if 'a_max' in k or 'max' in k:
        hi = k.pop('a_max', k.pop('max', None))
    if hassym(x) or hassym(lo) or hassym(hi):
        r = objarr(x)
        if lo is not None:
            r = _ufunc2(lambda a, b: sel(a < b, b, a))(r, lo)
        if hi is not None:
            r = _ufunc2(lambda a, b: sel(a > b, b, a))(r, hi)
        return r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else r
    return np.clip(x, lo, hi, **k)


def truncmod(a, b):
    """C remainder: sign of the dividend"""
    m = p_abs(a) % p_abs(b)
    return sel(a < 0, -m, m)


def _sign(a):
    return sel(a > 0, 1, sel(a < 0, -1, 0))


class SymArr:
    """array of symbolic shape whose elements are not tracked (numpy's own contract: broadcasting, element types)"""

    __array_ufunc__ = None      # an operator with a numpy array on the left comes here

    def __init__(self, shape, dtype):
        self.shape = shape.copy() if isinstance(shape, Q.SymSeq) else builtins.list(shape)
        self.dtype = np.dtype(dtype)

    @property
    def ndim(self):
        return p_len(self.shape)

    @property
    def size(self):
        return Q.fold('prod', self.shape) if isinstance(self.shape, Q.SymSeq) else PMath.prod(self.shape)

    def astype(self, dt, *a, **k):
        return SymArr(self.shape, dt)

    def copy(self):
        return SymArr(self.shape, self.dtype)

    def __getattr__(self, n):
        raise Unsupported('array of symbolic shape: %s' % n)

    def _no(self, *a):
        raise Unsupported('elements of an array of symbolic shape')
    __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __int__ = __float__ = __index__ = __contains__ = _no
    __hash__ = None


def broadcast(*arrs):
    """result shape of numpy broadcasting; ValueError where it does"""
    shs = [a.shape if isinstance(a, SymArr) else builtins.list(np.shape(a)) if not is_sym(a) else [] for a in arrs]
    if any(isinstance(s, Q.SymSeq) for s in shs):
        o, rej = Q.bcast(shs)
        if Q.exists(Q.SymSeq(rej.n, lambda j: j), lambda j: rej.pred(j)):
            raise ValueError('operands could not be broadcast together')
        return o
    from spec import shapes as S
    o, ok = S.bcast(shs)
    if not ok:
        raise ValueError('operands could not be broadcast together')
    return o


def arr_op(name, arrs, nf):
    """element type as numpy computes it on empty operands of the same types"""
    from . import vals
    if vals.istab(*arrs):
        r = vals.elementwise(name, arrs, nf)
        if r is not None:
            return r
    def rep(a):
        if isinstance(a, SymArr):
            return np.zeros((1,), a.dtype)
        if is_sym(a):
            return np.int64(1)
        return np.ones((1,), a.dtype) if isinstance(a, np.ndarray) and a.ndim else a
    sh = broadcast(*arrs)
    r = nf(*[rep(a) for a in arrs])
    return SymArr(sh, np.asarray(r).dtype)


def hasarr(*a):
    return any(isinstance(x, SymArr) for x in a)


def _dunder(name, nf, swap=False):
    def f(self, o):
        if not isinstance(o, (SymArr, np.ndarray, builtins.int, builtins.float, np.generic)) and not is_sym(o):
            return NotImplemented
        return arr_op(name, (o, self) if swap else (self, o), nf)
    return f


import operator as _op
for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and_', 'or_', 'xor'):
    _m = _n.strip('_')
    setattr(SymArr, '__%s__' % _m, _dunder(_n, getattr(_op, _n)))
    if _m in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor'):
        setattr(SymArr, '__r%s__' % _m, _dunder(_n, getattr(_op, _n), True))
SymArr.__neg__ = lambda self: SymArr(self.shape, self.dtype)
SymArr.__abs__ = lambda self: SymArr(self.shape, self.dtype)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, SymArr))

    def __eq__(cls, o):
        return o is np.ndarray or o is cls

    def __hash__(cls):
        return hash(np.ndarray)


class PNdarray(metaclass=_NdMeta):
    pass


def symshape(s):
    return isinstance(s, Q.SymSeq) or is_sym(s) or (isinstance(s, (builtins.list, builtins.tuple)) and anysym(s)) or (isinstance(s, OArr) and s.ndim <= 1 and hassym(s))


def np_filled(name):
    nf = getattr(np, name)

    def g(shape, *a, **k):
        if symshape(shape):
            if isinstance(shape, OArr):
                shape = builtins.list(np.ndarray.reshape(shape, -1))
            dt = k.get('dtype', a[-1] if a and name != 'full' else (a[1] if len(a) > 1 else None))
            if name in ('zeros', 'ones') and not isinstance(shape, Q.SymSeq):
                from .tab import const
                return const([shape] if is_sym(shape) else builtins.list(shape), np.float64 if dt is None else dt, 0 if name == 'zeros' else 1)
            if name == 'full' and dt is None:
                dt = np.asarray(a[0] if a else k['fill_value']).dtype
            return SymArr([shape] if is_sym(shape) else shape, np.float64 if dt is None else dt)
        r = nf(shape, *a, **k)
        return soft(r) if SOFT[0] else r
    return g


SOFT = [False]      # a contract's arrays made by the code take symbolic elements


def soft(x):
    return tagged(x.astype(object), x.dtype) if x.dtype.kind == 'f' else x


def np_like(name):
    nf = getattr(np, name)

    def g(x, *a, **k):
        if isinstance(x, SymArr):
            from .tab import Tab, const
            if isinstance(x, Tab):
                return const(x.shape, k.get('dtype') or (a[0] if a else x.dtype), 0 if name == 'zeros_like' else 1)
            return SymArr(x.shape, k.get('dtype') or x.dtype)
        if SOFT[0]:
            return soft(nf(np.zeros(x.shape, x.dtype), *a, **k))
        return nf(x, *a, **k)
    return g


def shape_fn(name, f):
    nf = getattr(np, name)

    def g(x, *a, **k):
        if isinstance(x, SymArr):
            return f(x, *a, **k)
        return nf(x, *a, **k)
    return g


def _conc(x):
    if isinstance(x.shape, Q.SymSeq):
        raise Unsupported('numpy function on an array of symbolic rank')
    return x


def _tile(x, reps):
    _conc(x)
    reps = builtins.list(objarr(reps).reshape(-1)) if not isinstance(reps, builtins.int) else [reps]
    s = builtins.list(x.shape)
    n = builtins.max(len(s), len(reps))
    s, reps = [1] * (n - len(s)) + s, [1] * (n - len(reps)) + reps
    return SymArr([d * r for d, r in zip(s, reps)], x.dtype)


def _reduce_shape(x, axis, keepdims, dt):
    _conc(x)
    r = len(x.shape)
    ax = builtins.range(r) if axis is None else [v % r for v in (axis if isinstance(axis, (tuple, builtins.list)) else [axis])]
    if axis is not None:
        for v in (axis if isinstance(axis, (tuple, builtins.list)) else [axis]):
            if not -r <= v < r:
                raise np.exceptions.AxisError('axis out of bounds')
    return SymArr([1 if i in ax else d for i, d in enumerate(x.shape) if keepdims or i not in ax], dt)


def _argmax(x, axis=None, keepdims=False):
    return _reduce_shape(x, axis, keepdims, np.int64)


def _expand_dims(x, axis):
    _conc(x)
    axs = axis if isinstance(axis, (tuple, builtins.list)) else [axis]
    n = len(x.shape) + len(axs)
    axs = [a % n for a in axs]
    it = iter(x.shape)
    return SymArr([1 if i in axs else next(it) for i in builtins.range(n)], x.dtype)


def _reshape(x, shape, *more):
    if more:
        shape = (shape,) + more
    if isinstance(x.shape, Q.SymSeq) and isinstance(shape, (builtins.int, builtins.list, builtins.tuple)) and shape in (-1, [-1], (-1,)):
        return SymArr([x.size], x.dtype)
    _conc(x)
    shape = [shape] if is_sym(shape) or isinstance(shape, builtins.int) else builtins.list(objarr(shape).reshape(-1)) if isinstance(shape, np.ndarray) else builtins.list(shape)
    size = PMath.prod(x.shape)
    neg = [i for i, d in enumerate(shape) if bool(d == -1)]
    if len(neg) > 1:
        raise ValueError('can only specify one unknown dimension')
    for i, d in enumerate(shape):
        if i not in neg and bool(d < 0):
            raise ValueError('negative dimensions not allowed')
    known = PMath.prod([d for i, d in enumerate(shape) if i not in neg])
    if neg:
        if bool(known == 0) or bool(size % known != 0):
            raise ValueError('cannot reshape array')
        shape[neg[0]] = size // known
    elif bool(known != size):
        raise ValueError('cannot reshape array')
    return SymArr(shape, x.dtype)


def _transpose(x, axes=None):
    _conc(x)
    r = len(x.shape)
    axes = builtins.list(builtins.range(r))[::-1] if axes is None else [a % r for a in axes]
    if sorted(axes) != builtins.list(builtins.range(r)):
        raise ValueError("axes don't match array")
    return SymArr([x.shape[a] for a in axes], x.dtype)


_reshape0 = _reshape
SymArr.reshape = _reshape
SymArr.transpose = lambda self, *a: _transpose(self, *a)


def np_reduce_arr(name, nf):
    def g(x, axis=None, dtype=None, keepdims=False, **k):
        if isinstance(x, SymArr):
            return _reduce_shape(x, axis, keepdims, dtype or nf(np.zeros((1,), x.dtype)).dtype)
        return nf(x, axis=axis, dtype=dtype, keepdims=keepdims, **k) if name != 'argmax' else nf(x, axis=axis, keepdims=keepdims, **k)
    return g


def np_all(x, axis=None, **k):
    if hasattr(type(x), 'inner'):
        return x.all(axis)
    return np.all(x, axis=axis, **k)


def np_count_nonzero(x, axis=None, **k):
    if hasattr(type(x), 'inner'):
        return x.sum(axis)
    if type(x).__name__ in ('Ind', 'Zarr'):
        return x.sum() if type(x).__name__ == 'Ind' else (x != 0).sum(axis)
    return np.count_nonzero(x, axis=axis, **k)


NUMPY = {
    'all': np_all, 'count_nonzero': np_count_nonzero,
    'tile': shape_fn('tile', _tile), 'argmax': shape_fn('argmax', _argmax), 'expand_dims': shape_fn('expand_dims', _expand_dims),
    'reshape': shape_fn('reshape', _reshape), 'transpose': shape_fn('transpose', _transpose), 'flip': shape_fn('flip', lambda x, *a: x.copy()),
    'mean': np_reduce_arr('mean', np.mean), 'ascontiguousarray': shape_fn('ascontiguousarray', lambda x, *a: x.copy()),
    'tril': shape_fn('tril', lambda x, k=0: x.copy()), 'triu': shape_fn('triu', lambda x, k=0: x.copy()),
    'zeros': np_filled('zeros'), 'ones': np_filled('ones'), 'full': np_filled('full'), 'empty': np_filled('empty'),
    'zeros_like': np_like('zeros_like'), 'ones_like': np_like('ones_like'), 'ndarray': PNdarray,
    'array': np_array, 'asarray': np_asarray, 'prod': np_prod, 'sum': np_sum, 'max': np_max, 'min': np_min, 'amax': np_max, 'amin': np_min,
    'where': np_where, 'clip': np_clip,
    'minimum': lift2('minimum', lambda a, b: sel(b < a, b, a)), 'maximum': lift2('maximum', lambda a, b: sel(b > a, b, a)),
    'less': lift2('less', lambda a, b: a < b), 'less_equal': lift2('less_equal', lambda a, b: a <= b),
    'greater': lift2('greater', lambda a, b: a > b), 'greater_equal': lift2('greater_equal', lambda a, b: a >= b),
    'equal': lift2('equal', lambda a, b: a == b), 'not_equal': lift2('not_equal', lambda a, b: a != b),
    'logical_and': lift2('logical_and', lambda a, b: (a != 0) & (b != 0)), 'logical_or': lift2('logical_or', lambda a, b: (a != 0) | (b != 0)),
    'logical_xor': lift2('logical_xor', lambda a, b: (a != 0) ^ (b != 0)), 'logical_not': lift1('logical_not', lambda a: a == 0),
    'floor_divide': lift2('floor_divide', lambda a, b: a // b), 'mod': lift2('mod', lambda a, b: a % b), 'fmod': lift2('fmod', truncmod),
    'remainder': lift2('remainder', lambda a, b: a % b), 'abs': lift1('abs', p_abs), 'absolute': lift1('absolute', p_abs),
    'sign': lift1('sign', _sign), 'ceil': lift1('ceil', PMath.ceil), 'floor': lift1('floor', PMath.floor), 'round': lift1('round', p_round),
    'add': lift2('add', lambda a, b: a + b), 'subtract': lift2('subtract', lambda a, b: a - b), 'multiply': lift2('multiply', lambda a, b: a * b),
    'negative': lift1('negative', lambda a: -a),
}
def np_ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, builtins.list)):
        shape = shape[0]
    if anysym(shape):
        from .tab import Grid
        return Grid(builtins.list(shape))
    return np.ndindex(*shape)


NUMPY['ndindex'] = np_ndindex


def _un(name):
    nf = getattr(np, name)

    def g(x, *a, **k):
        if isinstance(x, SymArr):
            return arr_op(name, (x,), nf)
        if hassym(x):
            raise Unsupported('numpy.%s of symbolic elements' % name)
        return nf(x, *a, **k)
    return g


for _n in ('exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'arctan', 'reciprocal', 'square', 'isnan', 'isinf', 'log1p', 'expm1', 'exp2', 'log2',
           'sinh', 'cosh', 'arcsin', 'arccos', 'rint', 'trunc'):
    NUMPY[_n] = _un(_n)


def dispatch():
    """functions of arrays whose elements are tracked"""
    from . import vals

    def one(n, f):
        old = NUMPY.get(n) or getattr(np, n)

        def g(x, *a, **k):
            if vals.istab(x, *a) or vals.istab(*k.values()):
                return f(x, *a, **k)
            return old(x, *a, **k)
        for at in ('reduce', 'accumulate'):
            if hasattr(getattr(np, n), at):
                setattr(g, at, getattr(getattr(np, n), at))
        NUMPY[n] = g
    for n, f in vals.TABLE.items():
        one(n, f)
    for n, f in (('copy', lambda x, *a, **k: x.copy()), ('concatenate', vals.t_concatenate), ('stack', vals.t_stack), ('compress', vals.t_compress), ('clip', vals.t_clip)):
        one(n, f)
    for n in ('power', 'logaddexp', 'divide', 'true_divide'):
        if n not in NUMPY:
            one(n, (lambda n, nf: lambda *a, **k: arr_op(n, a, nf))(n, getattr(np, n)))
    for n, w in (('minimum', 'min'), ('maximum', 'max'), ('add', 'sum'), ('multiply', 'prod'), ('logical_and', 'all'), ('logical_or', 'any')):
        NUMPY[n].reduce = (lambda w, nf, fo: lambda x, axis=0, dtype=None, out=None, keepdims=False, **k:
                           vals.reduction(w, x, axis, keepdims, dtype) if vals.istab(x) else fo(x, axis=axis, keepdims=keepdims) if hassym(x) else nf.reduce(x, axis=axis, dtype=dtype, keepdims=keepdims, **k))(
                               w, getattr(np, n), {'min': np_min, 'max': np_max, 'sum': np_sum, 'prod': np_prod, 'all': np_all, 'any': np_all}[w])


def np_arange(*a, dtype=None, **k):
    if len(a) == 4:
        a, dtype = a[:3], a[3]
    a = [x.reshape(-1)[0] if isinstance(x, np.ndarray) and x.size == 1 else x for x in a]
    if not anysym(a):
        return np.arange(*a, dtype=dtype, **k)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if any(isinstance(x, V.Real) for x in (lo, hi, st)):
        from . import vals
        if builtins.bool(st == 0):
            raise ZeroDivisionError('division by zero')
        n = vals.div(vals.conv(np.float64, hi - lo), st).ceil()
    elif any(isinstance(x, (Rat, builtins.float)) for x in (lo, hi, st)):
        n = -Rat.floor((Rat.of(lo) - Rat.of(hi)) / Rat.of(st))
    else:
        if builtins.bool(st == 0):
            raise ZeroDivisionError('division by zero')
        n = -((lo - hi) // st)
    n = sel(n > 0, n, 0)
    if dtype is None:
        dtype = np.int64
    vals = [n] if not is_sym(n) else P.cur().values_of(n.t, 1)
    if vals is not None and len(vals) == 1:
        return np_array([_cast(dtype, lo + i * st) for i in builtins.range(vals[0])], dtype)
    from .tab import Tab
    from . import vals
    return Tab([n], dtype, lambda i: vals.conv(dtype, lo + mk(vals.term(i)) * st))


NUMPY['arange'] = np_arange


def np_sqrt(x, *a, **k):
    if not isinstance(x, SymArr) and hassym(x):
        if isinstance(x, np.ndarray):
            return tagged(np.frompyfunc(PMath.sqrt, 1, 1)(x), getattr(x, '_dt', None))
        return PMath.sqrt(x)
    return _un('sqrt')(x, *a, **k)


NUMPY['sqrt'] = np_sqrt
dispatch()
for _n, _f in NUMPY.items():
    setattr(PNumpy, _n, staticmethod(_f) if not isinstance(_f, type) else _f)
del PNumpy.int64


class _NpInt(type):
    """numpy integer scalar types: calling one on a symbolic integer keeps it symbolic"""


def _nptype(name):
    t = getattr(np, name)
    return t


import struct
from .stream import PByteArray, STRUCT
PATCH = dict(BUILTINS, bytearray=PByteArray)
NP = PNumpy()
MATH = PMath()


# ------------------------------------------------------------------ instrumentation
class Instr(ast.NodeTransformer):
    def __init__(self, modname, path=None):
        self.mod = modname
        self.path = path
        self.stack = []
        self.nloop = 0

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        qual = self.mod + ':' + '.'.join(self.stack)
        from .loops import register
        register(self.path, n, n.body)
        self.generic_visit(n)
        self.stack.pop()
        doc = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
        n.body.insert(doc, ast.copy_location(ast.Expr(ast.Call(ast.Name('_pv_enter', ast.Load()), [ast.Constant(qual)], [])), n.body[0]))
        return n

    def visit_Import(self, n):
        if not self.stack:
            return n
        out = []
        for a in n.names:
            if a.name in ('ctypes', 'math', 'numpy'):
                out.append(ast.copy_location(ast.Assign([ast.Name(a.asname or a.name, ast.Store())], ast.Call(ast.Name('__import__', ast.Load()), [ast.Constant(a.name)], [])), n))
            else:
                out.append(ast.copy_location(ast.Import([a]), n))
        return out

    def visit_For(self, n):
        from .loops import rewrite_for
        import copy
        orig = copy.deepcopy(n.body)
        self.generic_visit(n)
        self.nloop += 1
        return rewrite_for(n, '%s:%s#%d' % (self.mod, '.'.join(self.stack), self.nloop), bool(self.stack), orig)

    def _comp(self, n, kind):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async:
            g = n.generators[0]
            # fn: element as a function of the target
            names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            arg = '_pv_x'
            if isinstance(g.target, ast.Name):
                lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
                call = ast.Call(ast.Name('_pv_comp', ast.Load()), [lam, g.iter, ast.Constant(kind), ast.Constant(False)], [])
            elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                lam = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in g.target.elts], None, [], [], None, []), n.elt)
                call = ast.Call(ast.Name('_pv_comp', ast.Load()), [lam, g.iter, ast.Constant(kind), ast.Constant(True)], [])
            else:
                return n
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(n.elt)):
                return n
            return ast.copy_location(call, n)
        return n

    def visit_ListComp(self, n):
        return self._comp(n, 'list')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name('_pv_in', ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        return n


def pv_in(x, xs):
    if isinstance(xs, Q.SymSeq):
        return xs.contains(x)
    if isinstance(xs, np.ndarray) and (is_sym(x) or raw(xs) == object):
        xs = builtins.list(xs.reshape(-1))
    if isinstance(xs, (builtins.list, builtins.tuple)) and (is_sym(x) or anysym(xs)):
        if (intlike(x) or is_sym(x)) and all(intlike(e) for e in xs):
            from spec.sym import Or
            r = Or(*[e == x for e in xs])
            return builtins.bool(r)
        for e in xs:
            if (intlike(e) or is_sym(e)) and (intlike(x) or is_sym(x)):
                if e == x:
                    return True
            elif not is_sym(e) and not is_sym(x) and (e is x or e == x):
                return True
        return False
    if is_sym(x) and isinstance(xs, (builtins.dict, builtins.set, builtins.frozenset)):
        for e in xs:
            if intlike(e) and (e == x):
                return True
        return False
    return x in xs


def pv_comp(f, it, kind, spread):
    if isinstance(it, Q.SymSeq):
        return Q.map_seq((lambda e: f(*e)) if spread else f, it)
    if kind == 'list':
        return [f(*e) for e in it] if spread else [f(e) for e in it]
    return (f(*e) for e in it) if spread else (f(e) for e in it)


def pv_enter(q):
    P.STATS.functions.add(q)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        rel = name.split('.')
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=[base])
        f = base + '.py'
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(name, f, loader=self)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import loops
        f = module.__spec__.origin
        src = open(f, encoding='utf-8').read()
        tree = ast.parse(src, f)
        tree = Instr(os.path.basename(f), f).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, f, 'exec')
        g = module.__dict__
        g.update(PATCH)
        g['_pv_enter'] = pv_enter
        g['_pv_comp'] = pv_comp
        g['_pv_in'] = pv_in
        g['_pv_loop'] = loops.pv_loop
        g['_pv_get'] = loops.pv_get
        g['_pv_exit'] = P.LoopReturn
        exec(code, g)
        for k, v in list(g.items()):
            if v is np:
                g[k] = NP
            elif v is math:
                g[k] = MATH
            elif v is struct:
                g[k] = STRUCT


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
