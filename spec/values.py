"""ONNX definitions of computed values: the element of the output at an index, as a function of the input elements.
Written from the ONNX operator specification, on accessors that work on concrete arrays and on symbolic ones."""
import math
import numpy as np
from .sym import ite, And, Or, Not, is_sym
from . import shapes as S


class N:
    """concrete readings of the helpers"""

    @staticmethod
    def get(x, dt, i):
        return np.asarray(x)[tuple(int(k) for k in i)].item()

    @staticmethod
    def red(what, n, f, dt):
        vs = [f(k) for k in range(int(n))]
        if what == 'argmax':
            return max(range(len(vs)), key=lambda k: (vs[k], -k))
        if what == 'prod':
            r = 1
            for x in vs:
                r = r * x
            return r
        return {'sum': sum, 'max': max, 'min': min}[what](vs)

    @staticmethod
    def fn(name, *a):
        try:
            if name == 'power':
                return float(np.power(float(a[0]), float(a[1])))
            if name == 'ipower':
                return int(np.power(np.int64(a[0]), np.int64(a[1])))
            if name == 'log' and a[0] <= 0:
                return float('-inf') if a[0] == 0 else float('nan')
            if name == 'sqrt' and a[0] < 0:
                return float('nan')
            return {'arctan': math.atan}.get(name, getattr(math, name, None))(*a)
        except OverflowError:
            return float('inf')

    @staticmethod
    def div(a, b):
        return a / b if b else (float('nan') if not a else math.copysign(float('inf'), a))

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    @staticmethod
    def num(x):
        return int(x) if isinstance(x, bool) else x

    @staticmethod
    def conv(dt, x):
        k = np.dtype(dt).kind
        return float(x) if k == 'f' else bool(x) if k == 'b' else math.trunc(x)

    @staticmethod
    def floor(x):
        return float(math.floor(x))

    @staticmethod
    def ceil(x):
        return float(math.ceil(x))

    @staticmethod
    def round(x):
        return float(round(x))

    @staticmethod
    def trunc(x):
        return float(math.trunc(x))

    @staticmethod
    def eq(dt, a, b):
        if np.dtype(dt).kind == 'f':
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            if math.isinf(a) or math.isinf(b):
                m = 6e4 if np.dtype(dt) == np.float16 else 1e38 if np.dtype(dt) == np.float32 else 1e300
                return a == b or (abs(a) > m and abs(b) > m and (a > 0) == (b > 0))
            return abs(a - b) <= 2e-4 * max(1e-2, abs(a), abs(b))
        return a == b


class Z:
    """symbolic readings"""

    @staticmethod
    def get(x, dt, i):
        from pyvc import vals
        return vals.conv(dt, x.elem(*[vals.simp(vals.term(k)) for k in i]))

    @staticmethod
    def red(what, n, f, dt):
        from pyvc import vals
        from pyvc.values import mk
        return vals.reduce1(what, n, lambda k: f(mk(k)), dt)

    @staticmethod
    def fn(name, *a):
        from pyvc import vals
        return {'exp': vals.EXP, 'log': vals.LOG, 'sin': vals.SIN, 'cos': vals.COS, 'tanh': vals.TANH, 'arctan': vals.ATAN, 'erf': vals.ERF,
                'sqrt': vals.SQRT, 'power': vals.POWR, 'ipower': vals.POWI}[name](*a)

    @staticmethod
    def div(a, b):
        from pyvc import vals
        return vals.div(a, b)

    @staticmethod
    def ite(c, a, b):
        from pyvc import vals
        return vals.ite(c, a, b)

    @staticmethod
    def num(x):
        from pyvc import vals
        return vals.num(x)

    @staticmethod
    def conv(dt, x):
        from pyvc import vals
        return vals.conv(dt, x)

    @staticmethod
    def floor(x):
        from pyvc import vals
        return vals.fl(x)

    @staticmethod
    def ceil(x):
        from pyvc import vals
        return vals.ce(x)

    @staticmethod
    def round(x):
        from pyvc import vals
        return vals.rnd(x)

    @staticmethod
    def trunc(x):
        from pyvc import vals
        return vals.conv(np.float64, x.trunc())

    @staticmethod
    def eq(dt, a, b):
        from pyvc import vals
        if np.dtype(dt).kind == 'f':
            a, b = vals.conv(np.float64, a), vals.conv(np.float64, b)
        return vals.eq(a, b)


class X:
    """an operand: shape, element type and access to its elements"""

    def __init__(self, m, arr, shape, dtype):
        self.m, self.arr, self.shape, self.dtype = m, arr, list(shape), np.dtype(dtype)

    def __call__(self, *i):
        return self.m.get(self.arr, self.dtype, i)

    def at(self, out, i):
        """element seen at index i of a broadcast result"""
        d = len(out) - len(self.shape)
        return self(*[0 if isinstance(n, int) and n == 1 else i[k + d] if n is out[k + d] else ite(n == 1, 0, i[k + d]) for k, n in enumerate(self.shape)])


def elementwise(m, xs, f):
    """(shape, condition under which it exists, element)"""
    o, ok = S.bcast([x.shape for x in xs])
    return o, ok, lambda *i: f(*[x.at(o, i) for x in xs])


def idiv(m, a, b):
    """integer division rounding towards zero"""
    q = ite(a < 0, -a, a) // ite(b < 0, -b, b)
    return ite((a < 0) == (b < 0), q, -q) if not is_sym(a) and not is_sym(b) else ite(Or(And(a < 0, b < 0), And(a >= 0, b > 0)), q, -q)


def fmod(m, a, b):
    """remainder with the sign of the dividend"""
    if isinstance(a, int) or hasattr(a, 'bit_length'):
        r = ite(a < 0, -a, a) % ite(b < 0, -b, b)
        return ite(a < 0, -r, r)
    return a - b * m.trunc(m.div(a, b)) if is_sym(a) or is_sym(b) else math.fmod(a, b)


def pmod(m, a, b):
    """remainder with the sign of the divisor"""
    if isinstance(a, int) or hasattr(a, 'bit_length'):
        return a % b
    r = fmod(m, a, b)
    return ite(And(r != 0, Or(And(r < 0, b > 0), And(r > 0, b < 0))), r + b, r)


def binary(m, op, dt):
    fl = np.dtype(dt).kind == 'f'
    return {
        'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b,
        'Div': (lambda a, b: m.div(a, b)) if fl else lambda a, b: idiv(m, a, b),
        'Pow': (lambda a, b: m.fn('power', a, b)) if fl else lambda a, b: m.fn('ipower', a, b),
        'Mod': lambda a, b: pmod(m, a, b), 'Fmod': lambda a, b: fmod(m, a, b),
        'Less': lambda a, b: a < b, 'LessOrEqual': lambda a, b: a <= b, 'Greater': lambda a, b: a > b, 'GreaterOrEqual': lambda a, b: a >= b,
        'Equal': lambda a, b: m.eq(np.int64, m.num(a), m.num(b)), 'And': And, 'Or': Or, 'Xor': lambda a, b: Not(m.eq(np.bool_, a, b)),
        'Min': lambda a, b: m.ite(a <= b, a, b), 'Max': lambda a, b: m.ite(a >= b, a, b),
    }[op]


def unary(m, op, at):
    e = lambda x: m.fn('exp', x)
    g = at.get
    hs = lambda x: clip(m, g('alpha', .2) * x + g('beta', .5), 0., 1.)
    return {
        'Neg': lambda x: -x, 'Abs': lambda x: m.ite(x < 0, -x, x), 'Ceil': m.ceil, 'Floor': m.floor, 'Round': m.round, 'Identity': lambda x: x, 'Dropout': lambda x: x,
        'Exp': e, 'Log': lambda x: m.fn('log', x), 'Sqrt': lambda x: m.fn('sqrt', x), 'Sin': lambda x: m.fn('sin', x), 'Cos': lambda x: m.fn('cos', x),
        'Tanh': lambda x: m.fn('tanh', x), 'Atan': lambda x: m.fn('arctan', x), 'Erf': lambda x: m.fn('erf', x),
        'Sigmoid': lambda x: m.div(1., 1. + e(-x)), 'Softplus': lambda x: m.fn('log', e(x) + 1.), 'Reciprocal': lambda x: m.div(1., x),
        'Sign': lambda x: m.ite(x > 0, 1, m.ite(x < 0, -1, 0)), 'Relu': lambda x: m.ite(x > 0, x, 0), 'Relu6': lambda x: clip(m, x, 0, 6),
        'Elu': lambda x: m.ite(x >= 0, x, g('alpha', 1.) * (e(x) - 1.)), 'LeakyRelu': lambda x: m.ite(x >= 0, x, g('alpha', .01) * x),
        'HardSigmoid': hs, 'HardSwish': lambda x: x * clip(m, x * (1 / 6) + .5, 0., 1.), 'Not': Not,
    }[op]


def clip(m, x, lo, hi):
    if lo is not None:
        x = m.ite(x < lo, lo, x)
    if hi is not None:
        x = m.ite(x > hi, hi, x)
    return x


def pick(m, value, i):
    """element of a concrete array at an index that may be symbolic"""
    r = None
    for e in reversed(list(np.ndindex(*value.shape))):
        x = value[e].item()
        if r is None:
            r = x
            continue
        c = True
        for a, b in zip(i, e):
            c = And(c, a == b)
        r = m.ite(c, x, r)
    return r


def ceildiv(a, b):
    return -((-a) // b)


def slice_rule(n, start, end, step):
    """(first position, number of positions) of one axis, ONNX Slice"""
    s = ite(start < 0, start + n, start)
    e = ite(end < 0, end + n, end)
    if step > 0:
        s = ite(s < 0, 0, ite(s > n, n, s))
        e = ite(e < 0, 0, ite(e > n, n, e))
        c = ceildiv(e - s, step)
    else:
        s = ite(s < 0, 0, ite(s > n - 1, n - 1, s))
        e = ite(e < -1, -1, ite(e > n - 1, n - 1, e))
        c = ceildiv(s - e, -step)
    return s, ite(c < 0, 0, c)
