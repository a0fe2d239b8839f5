"""Symbolic proxy values.  The real code runs on them natively; every operation builds a z3 term.

Mathematical integers stand for Python ints (exact).  `/` gives an exact rational kept as
int part + numerator/denominator (Python floats are treated as exact rationals: assumption
`float-exact`, sound for extents below 2**53)."""
import z3
from . import path as P
from .path import Unsupported


def is_sym(x):
    return getattr(type(x), 'symbolic', False)


def term(x):
    """z3 Int term of a Python int / bool / SymInt / SymBool"""
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == () and x.dtype.kind in 'iub':
        return z3.IntVal(int(x))
    raise Unsupported('not an integer: %r' % (type(x),))


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, SymInt):
        return x.t != 0
    return z3.BoolVal(bool(x))


def intlike(x):
    return isinstance(x, (int, SymInt, SymBool)) or (hasattr(x, 'dtype') and not hasattr(type(x), 'in_range') and getattr(x, 'shape', None) == () and x.dtype.kind in 'iub')


def mk(t):
    """SymInt, or a Python int when the term is a literal"""
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mkb(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def simp(t):
    return z3.simplify(t, som=True)


def cmp(op, a, b):
    ta, tb = term(a), term(b)
    d = simp(ta - tb)
    if z3.is_int_value(d):
        v = d.as_long()
        return {'<': v < 0, '<=': v <= 0, '==': v == 0}[op]
    return mkb({'<': ta < tb, '<=': ta <= tb, '==': ta == tb}[op])


def floordiv(a, b):
    """Python floor division; raises ZeroDivisionError on the paths where b is 0"""
    tb = simp(term(b))
    ta = simp(term(a))
    if z3.is_int_value(tb):
        if tb.as_long() == 0:
            raise ZeroDivisionError('division by zero')
        if z3.is_int_value(ta):
            return ta.as_long() // tb.as_long()
        if tb.as_long() > 0:
            return mk(simp(ta / tb)) if tb.as_long() != 1 else mk(ta)
        return mk((-ta) / z3.IntVal(-tb.as_long()))
    if P.cur().decide(tb == 0):
        raise ZeroDivisionError('division by zero')
    q = exact_quotient(ta, tb)
    if q is not None:
        return mk(q)
    if P.cur().decide(tb > 0):
        return mk(P.cur().divide(ta, tb))
    return mk(P.cur().divide(simp(-ta), simp(-tb)))


def factors(t):
    """(coefficient, factors) of a product term, None for anything else"""
    c, fs, todo = 1, [], [t]
    while todo:
        x = todo.pop()
        if z3.is_int_value(x):
            c *= x.as_long()
        elif z3.is_mul(x):
            todo.extend(x.children())
        elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
            c = -c
            todo.append(x.arg(0))
        elif z3.is_add(x) or z3.is_sub(x):
            return None
        else:
            fs.append(x)
    return c, fs


def exact_quotient(a, b):
    """a // b where b (known to be non-zero) divides the product a factor by factor"""
    fa, fb = factors(a), factors(b)
    if fa is None or fb is None or fb[0] == 0 or fa[0] % fb[0]:
        return None
    left = list(fa[1])
    for x in fb[1]:
        k = next((i for i, y in enumerate(left) if z3.eq(x, y)), None)
        if k is None:
            return None
        left.pop(k)
    r = z3.IntVal(fa[0] // fb[0])
    for y in left:
        r = r * y
    return z3.simplify(r)


def pymod(a, b):
    tb = simp(term(b))
    if z3.is_int_value(tb) and tb.as_long() > 0:
        return mk(simp(term(a) % tb))
    q = floordiv(a, b)
    return mk(simp(term(a) - term(q) * tb))


class SymBool:
    symbolic = True
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return P.cur().decide(self.t)

    def __and__(self, o):
        if not isinstance(o, (bool, SymBool)) and type(o).__name__ not in ('bool', 'bool_'):
            return mk(term(self)) & o
        return mkb(simp(z3.And(self.t, bterm(o))))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(simp(z3.Or(self.t, bterm(o))))
    __ror__ = __or__

    def __xor__(self, o):
        return mkb(simp(z3.Xor(self.t, bterm(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return mkb(simp(z3.Not(self.t)))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkb(simp(self.t == bterm(o)))
        return mk(term(self)) == o

    def __ne__(self, o):
        r = self == o
        return ~r if is_sym(r) else not r

    def __hash__(self):
        return hash(bool(self))

    def ite(self, a, b):
        return select(self.t, a, b)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return SymInt(term(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        return SymInt(term(self)) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return SymInt(term(self)) - o

    def __rsub__(self, o):
        return o - SymInt(term(self))

    def astype(self, *a, **k):
        return SymInt(term(self))

    def __repr__(self):
        return '<sym bool>'


def shown(x, spec):
    """text standing for a formatted symbolic number; `reading` gives the number and the format back"""
    c = P.cur()
    if c is None or c.sub:
        return '<sym>'
    l = c.ghost.setdefault('shown', [])
    l.append((x, spec))
    return '\ue000%d\ue001' % (len(l) - 1)


def reading(text):
    """(number, format) a text stands for, None when it is no formatted symbolic number alone"""
    if len(text) > 2 and text[0] == '\ue000' and text[-1] == '\ue001' and text[1:-1].isdigit():
        return P.cur().ghost['shown'][int(text[1:-1])]
    return None


def select(c, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return type(a)(select(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkb(simp(z3.If(c, bterm(a), bterm(b))))
    if intlike(a) and intlike(b):
        return mk(simp(z3.If(c, term(a), term(b))))
    if isinstance(a, Real) or isinstance(b, Real):
        return Real(z3.If(c, rterm(a), rterm(b)))
    if isinstance(a, Rat) or isinstance(b, Rat):
        a, b = Rat.of(a), Rat.of(b)
        if z3.eq(term(a.d), term(b.d)) or cmp('==', a.d, b.d) is True:
            return Rat(select(c, a.i, b.i), select(c, a.n, b.n), a.d)
    return a if P.cur().decide(c) else b


def isfloat(o):
    return isinstance(o, float) or (hasattr(o, 'dtype') and getattr(o, 'shape', None) == () and o.dtype.kind == 'f')


class SymInt:
    symbolic = True
    __slots__ = ('t',)
    __array_ufunc__ = None          # numpy scalars defer to the proxy

    def __init__(self, t):
        self.t = t

    # -- arithmetic
    def _bin(self, o, f):
        if isinstance(o, (Rat, Real)):
            return NotImplemented
        if isinstance(o, float):
            return NotImplemented if o != int(o) else f(self.t, z3.IntVal(int(o)))
        if not intlike(o):
            return NotImplemented
        return mk(simp(f(self.t, term(o))))

    def __add__(self, o):
        if isfloat(o):
            return Rat.of(self) + o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isfloat(o):
            return Rat.of(self) + o
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        if isfloat(o):
            return Rat.of(self) - o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isfloat(o):
            return Rat.of(o) - self
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            from .seq import replicate
            return replicate(o, self)
        if isfloat(o):
            return Rat.of(self) * o
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            from .seq import replicate
            return replicate(o, self)
        if isfloat(o):
            return Rat.of(self) * o
        return self._bin(o, lambda a, b: b * a)

    def __neg__(self):
        return mk(simp(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(simp(z3.If(self.t >= 0, self.t, -self.t)))

    def __floordiv__(self, o):
        if (isinstance(o, Rat) or isfloat(o)):
            return Rat.of(self) // o
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return pymod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return pymod(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if isinstance(o, Real):
            return NotImplemented
        return Rat.of(self) / o

    def __rtruediv__(self, o):
        return Rat.of(o) / self

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and 0 <= o <= 6:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('symbolic power')

    def __rpow__(self, o):
        if isinstance(o, int) and o == 2:
            return pow2(self)
        raise Unsupported('symbolic exponent')

    def __and__(self, o):
        if isinstance(o, int) and o > 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        if isinstance(o, int) and o == 0:
            return 0
        raise Unsupported('bitwise and')
    __rand__ = __and__

    def __or__(self, o):
        """sum of two numbers without a common bit, when the solver can show that"""
        if not intlike(o):
            return NotImplemented
        p = P.cur()
        for a, b in ((term(self), term(o)), (term(o), term(self))):
            for k in (1, 2, 4, 8, 16):
                m = 1 << k
                p.solver.push()
                p.solver.add(z3.Not(z3.And(a >= 0, a < m, b % m == 0)))
                r = p.solver.check()
                p.solver.pop()
                if r == z3.unsat:
                    return mk(simp(a + b))
        raise Unsupported('bitwise or')
    __ror__ = __or__

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported('symbolic shift')

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        raise Unsupported('symbolic shift')

    # -- comparison
    def __lt__(self, o):
        return cmp('<', self, o) if intlike(o) else self._rc(o, '<')

    def __le__(self, o):
        return cmp('<=', self, o) if intlike(o) else self._rc(o, '<=')

    def __gt__(self, o):
        return cmp('<', o, self) if intlike(o) else self._rc(o, '>')

    def __ge__(self, o):
        return cmp('<=', o, self) if intlike(o) else self._rc(o, '>=')

    def _rc(self, o, op):
        if isinstance(o, Real):
            return NotImplemented
        if (isinstance(o, Rat) or isfloat(o)):
            import operator
            f = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq}[op]
            return f(Rat.of(self), Rat.of(o))
        return NotImplemented

    def __eq__(self, o):
        if intlike(o):
            return cmp('==', self, o)
        if (isinstance(o, Rat) or isfloat(o)):
            return Rat.of(self) == o
        if isinstance(o, Real):
            return o == self
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if is_sym(r) else not r

    def __bool__(self):
        return P.cur().decide(self.t != 0)

    def __hash__(self):
        return hash(P.cur().concretise(self.t))

    def __index__(self):
        return P.cur().concretise(self.t)

    def __int__(self):
        return P.cur().concretise(self.t)

    def __float__(self):
        return float(P.cur().concretise(self.t))

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    def ite(self, a, b):
        return select(self.t != 0, a, b)

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    # what a numpy integer scalar offers
    shape = ()
    ndim = 0
    size = 1

    def tolist(self):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        return self.__index__().bit_length()

    def conjugate(self):
        return self

    def __repr__(self):
        return '<sym %s>' % str(self.t)[:60]

    def __format__(self, spec):
        return shown(self, spec)

    def __str__(self):
        return shown(self, '')


class Rat:
    """i + n/d with d a positive integer term (or 1)"""
    symbolic = True
    __slots__ = ('i', 'n', 'd')
    __array_ufunc__ = None

    def __init__(self, i, n=0, d=1):
        self.i, self.n, self.d = i, n, d
        if isinstance(n, int) and isinstance(d, int) and not is_sym(n):
            q, r = divmod(n, d)
            if q:
                self.i, self.n = i + q, r

    @staticmethod
    def of(x):
        if isinstance(x, Rat):
            return x
        if intlike(x):
            return Rat(x)
        if isinstance(x, float) or (hasattr(x, 'dtype') and getattr(x, 'shape', None) == () and x.dtype.kind == 'f'):
            from fractions import Fraction
            import math
            if not math.isfinite(float(x)):
                raise Unsupported('non-finite number')
            f = Fraction(float(x))
            return Rat(0, f.numerator, f.denominator)
        raise Unsupported('not a number: %r' % type(x))

    def num(self):
        return self.i * self.d + self.n

    def __add__(self, o):
        if not numeric(o) or isinstance(o, Real):
            return NotImplemented
        o = Rat.of(o)
        if isinstance(o.n, int) and o.n == 0:
            return Rat(self.i + o.i, self.n, self.d)
        if isinstance(self.n, int) and self.n == 0:
            return Rat(self.i + o.i, o.n, o.d)
        if same(self.d, o.d):
            return Rat(self.i + o.i, self.n + o.n, self.d)
        return Rat(self.i + o.i, self.n * o.d + o.n * self.d, self.d * o.d)
    __radd__ = __add__

    def __neg__(self):
        return Rat(-self.i, -self.n, self.d)

    def __sub__(self, o):
        if not numeric(o) or isinstance(o, Real):
            return NotImplemented
        return self + (-Rat.of(o))

    def __rsub__(self, o):
        return Rat.of(o) + (-self)

    def __mul__(self, o):
        if not numeric(o) or isinstance(o, Real):
            return NotImplemented
        o = Rat.of(o)
        if isinstance(o.n, int) and o.n == 0:
            if same(o.i, self.d):
                return Rat(self.num())
            return Rat(self.i * o.i, self.n * o.i, self.d)
        if isinstance(self.n, int) and self.n == 0:
            if same(self.i, o.d):
                return Rat(o.num())
            return Rat(o.i * self.i, o.n * self.i, o.d)
        return Rat(0, self.num() * o.num(), self.d * o.d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Real):
            return NotImplemented
        o = Rat.of(o)
        n, d = self.num() * o.d, self.d * o.num()
        if is_sym(d):
            if bool(d == 0):
                raise ZeroDivisionError('division by zero')
            if bool(d < 0):
                n, d = -n, -d
        else:
            if d == 0:
                raise ZeroDivisionError('division by zero')
            if d < 0:
                n, d = -n, -d
        if not is_sym(d) and d == 1:
            return Rat(n)
        return Rat(0, n, d)

    def __rtruediv__(self, o):
        return Rat.of(o) / self

    def __floordiv__(self, o):
        return Rat((self / o).floor())

    def floor(self):
        return self.i + (self.n // self.d if not (isinstance(self.n, int) and self.n == 0) else 0)

    def ceil(self):
        return self.i - ((-self.n) // self.d if not (isinstance(self.n, int) and self.n == 0) else 0)

    def trunc(self):
        if isinstance(self.n, int) and self.n == 0:
            return self.i
        nn = self.num() >= 0
        if is_sym(nn):
            return nn.ite(self.floor(), self.ceil())
        return self.floor() if nn else self.ceil()

    __floor__, __ceil__, __trunc__ = floor, ceil, trunc

    def __int__(self):
        r = self.trunc()
        return r if isinstance(r, int) else int(r)

    def __round__(self, n=None):
        f = self.floor()
        frac2 = (self - Rat.of(f)) * 2
        c = frac2 > 1
        e = frac2 == 1
        up = f + 1
        mid = f + f % 2
        return sel(c, up, sel(e, mid, f))

    def _cmp(self, o, op):
        if not numeric(o) or isinstance(o, Real):
            return NotImplemented
        o = Rat.of(o)
        import operator
        return getattr(operator, op)(self.num() * o.d, o.num() * self.d)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self == o
        return ~r if is_sym(r) else not r

    def __hash__(self):
        raise Unsupported('hash of a symbolic rational')

    def __abs__(self):
        return sel(self < 0, -self, self)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported('symbolic rational as a machine float')

    def is_integer(self):
        return self.n % self.d == 0 if not (isinstance(self.n, int) and self.n == 0) else True

    shape, ndim, size = (), 0, 1

    def item(self):
        return self

    def astype(self, dt=None, *a, **k):
        import numpy
        if dt is not None and numpy.dtype(dt).kind in 'iu':
            return self.trunc()
        return self

    def __repr__(self):
        return '<sym rational>'

    def __format__(self, spec):
        return shown(self, spec)

    def __str__(self):
        return shown(self, '')


def rterm(x):
    """z3 Real term"""
    if isinstance(x, Real):
        return x.t
    if isinstance(x, Rat):
        r = z3.ToReal(term(x.i))
        return r if isinstance(x.n, int) and x.n == 0 else r + z3.ToReal(term(x.n)) / z3.ToReal(term(x.d))
    if intlike(x):
        t = term(x)
        return z3.RealVal(t.as_long()) if z3.is_int_value(t) else z3.ToReal(t)
    from fractions import Fraction
    import math
    if not math.isfinite(float(x)):
        raise Unsupported('non-finite number')
    f = Fraction(float(x))
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


class Real:
    """a real number (floating point treated as exact real arithmetic: assumption `float-real`)"""
    symbolic = True
    __slots__ = ('t',)
    __array_ufunc__ = None
    shape, ndim, size = (), 0, 1

    def __init__(self, t):
        self.t = t

    def _b(self, o, f):
        return Real(z3.simplify(f(self.t, rterm(o)))) if numeric(o) else NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return rdiv(self.t, rterm(o)) if numeric(o) else NotImplemented

    def __rtruediv__(self, o):
        return rdiv(rterm(o), self.t) if numeric(o) else NotImplemented

    def __neg__(self):
        return Real(z3.simplify(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return Real(z3.If(self.t >= 0, self.t, -self.t))

    def _c(self, o, f):
        return mkb(z3.simplify(f(self.t, rterm(o)))) if numeric(o) else NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b) if numeric(o) else False

    def __ne__(self, o):
        r = self == o
        return ~r if is_sym(r) else not r

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported('symbolic real as a machine float')

    def __round__(self, n=None):
        """nearest integer, ties to even"""
        if n:
            raise Unsupported('rounding to digits')
        c = P.cur()
        key = ('round', self.t.get_id())
        if key not in c.divs:
            r = c.fresh('rnd')
            c.divs[key] = (r, self.t)
            d = self.t - z3.ToReal(r)
            h = z3.RealVal('1/2')
            c.assume(z3.And(d <= h, d >= -h))
            c.assume(z3.Implies(z3.Or(d == h, d == -h), r % 2 == 0))
        return SymInt(c.divs[key][0])

    def floor(self):
        return mk(z3.ToInt(self.t))

    def ceil(self):
        return mk(z3.simplify(-z3.ToInt(-self.t)))

    def trunc(self):
        return mk(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    __floor__, __ceil__, __trunc__ = floor, ceil, trunc

    def item(self):
        return self

    def astype(self, dt=None, *a, **k):
        import numpy
        if dt is not None and numpy.dtype(dt).kind in 'iu':
            return self.trunc()
        return self

    def __repr__(self):
        return '<sym real>'

    def __format__(self, spec):
        return shown(self, spec)

    def __str__(self):
        return shown(self, '')


def rdiv(a, b):
    """a / b; raises on the paths where b is 0"""
    b = z3.simplify(b)
    if z3.is_rational_value(b):
        if b.numerator_as_long() == 0:
            raise ZeroDivisionError('division by zero')
        return Real(z3.simplify(a / b))
    c = P.cur()
    if c.decide(b == 0):
        raise ZeroDivisionError('division by zero')
    a = z3.simplify(a)
    key = ('rdiv', a.get_id(), b.get_id())
    if key not in c.divs:
        q = c.fresh('q', z3.RealSort())
        c.divs[key] = (q, a, b)
        c.assume(q * b == a)
    return Real(c.divs[key][0])


_SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


def sqrt(x):
    """the non-negative root; raises on the paths where x is negative"""
    t = z3.simplify(rterm(x))
    c = P.cur()
    if c.decide(t < 0):
        raise ValueError('math domain error')
    r = _SQRT(t)
    key = ('sqrt', t.get_id())
    if key not in c.divs:
        c.divs[key] = (r, t)
        c.assume(z3.And(r >= 0, r * r == t))
    return Real(r)


_P2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())


def pow2(x):
    """2 ** x for x >= 0"""
    t = simp(term(x))
    if z3.is_int_value(t):
        return 2 ** t.as_long()
    c = P.cur()
    if c.decide(t < 0):
        raise Unsupported('negative power of two')
    for k in range(-4, 5):       # values at neighbouring exponents are linked
        u = simp(t + k)
        c.assume(z3.Implies(u >= 0, z3.And(_P2(u) >= 1, _P2(simp(u + 1)) == 2 * _P2(u))))
    c.assume(_P2(z3.IntVal(0)) == 1)
    c.assume(z3.Implies(t >= 1, _P2(t) >= 2))
    return mk(_P2(t))


_L2 = z3.Function('floor_log2', z3.IntSort(), z3.IntSort())
_L2F = z3.Function('frac_log2', z3.IntSort(), z3.IntSort())


def ilog2(x):
    """integer part of the binary logarithm (only monotonicity facts at 1 and 2 are known of it)"""
    t = term(x)
    P.cur().assume(z3.Implies(t >= 1, _L2(t) >= 0))
    P.cur().assume(z3.Implies(t >= 2, _L2(t) >= 1))
    return mk(_L2(t))


def log2(x):
    if bool(x <= 0):
        raise ValueError('expected a positive input')
    f = _L2F(term(x))
    P.cur().assume(z3.And(f >= 0, f < 10 ** 9))
    return Rat(ilog2(x), SymInt(f), 10 ** 9)


SymInt.ilog2 = ilog2


def sel(c, a, b):
    if is_sym(c):
        return c.ite(a, b)
    return a if c else b


def same(a, b):
    if not is_sym(a) and not is_sym(b):
        return a == b
    return cmp('==', a, b) is True


def numeric(x):
    return intlike(x) or isinstance(x, (float, Rat, Real)) or (hasattr(x, 'dtype') and not hasattr(type(x), 'in_range') and getattr(x, 'shape', None) == () and x.dtype.kind in 'fiub')


def _elementwise():
    """binary operators of the proxies with a numpy array on the other side act element by element"""
    import operator
    import numpy
    names = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'lt', 'le', 'gt', 'ge', 'eq', 'ne']

    def wrap(cls, meth, f, swap):
        old = getattr(cls, meth, None)
        if old is None:
            return

        def g(self, o):
            if isinstance(o, numpy.ndarray) and not o.ndim:
                return f(o[()], self) if swap else f(self, o[()])
            if isinstance(o, numpy.ndarray) and o.ndim:
                from . import env
                out = numpy.empty(o.shape, dtype=object)
                for k in numpy.ndindex(*o.shape):
                    out[k] = f(o[k], self) if swap else f(self, o[k])
                return env.tagged(out, None) if f not in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne) else env.tagged(out, numpy.dtype(bool))
            return old(self, o)
        g.__name__ = meth
        setattr(cls, meth, g)
    for cls in (SymInt, Rat, Real):
        h = cls.__hash__
        for n in names:
            f = getattr(operator, n)
            wrap(cls, '__%s__' % n, f, False)
            if '__r%s__' % n in cls.__dict__:
                wrap(cls, '__r%s__' % n, f, True)
        cls.__hash__ = h


_elementwise()
