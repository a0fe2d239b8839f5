"""numpy on arrays of symbolic extents whose elements are tracked (Tab): every function is given by the element it puts
at an index.  Sums, maxima and positions of maxima over an axis of symbolic extent are uninterpreted functions of the
row (a lambda term) and its length; over an axis of known extent they are written out.  Transcendental functions are
uninterpreted.  Floating point is exact real arithmetic."""
import builtins
import z3
import numpy as np
from . import path as P
from .path import Unsupported
from .values import SymInt, SymBool, Rat, Real, is_sym, mk, mkb, simp, term as term_, bterm, sel, intlike, rterm, numeric
from . import seq as Q

def term(x):
    return x if z3.is_expr(x) else term_(x)


RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def kind(dt):
    return np.dtype(dt).kind


def sort_of(dt):
    return {'f': RS, 'b': BS}.get(kind(dt), IS)


def wrap(dt, t):
    k = kind(dt)
    return Real(t) if k == 'f' else mkb(t) if k == 'b' else mk(t)


def conv(dt, v):
    """element conversion, to the canonical scalar of the element type"""
    k = kind(dt)
    if isinstance(v, np.generic):
        v = v.item()
    if not is_sym(v):
        return float(v) if k == 'f' else bool(v) if k == 'b' else int(v)
    if k == 'f':
        if isinstance(v, SymBool):
            v = mk(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        return v if isinstance(v, Real) else Real(z3.simplify(rterm(v)))
    if k == 'b':
        return v if isinstance(v, SymBool) else v != 0
    if isinstance(v, SymBool):
        return mk(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, (Rat, Real)):
        return v.trunc()
    return v


def zterm(dt, v):
    k = kind(dt)
    v = conv(dt, v)
    return rterm(v) if k == 'f' else bterm(v) if k == 'b' else term(v)


# ------------------------------------------------------------------ scalar functions
def uf(name, n=1, sort=RS):
    F = z3.Function('fn_' + name, *([sort] * (n + 1)))

    def g(*a):
        ts = [z3.simplify(rterm(x) if sort == RS else term(x)) for x in a]
        if name == 'exp' and z3.is_rational_value(ts[0]) and ts[0].numerator_as_long() == 0:
            return 1.0
        return Real(F(*ts)) if sort == RS else SymInt(F(*ts))
    return g


EXP, LOG, SIN, COS, TANH, ATAN, ERF = (uf(n) for n in ('exp', 'log', 'sin', 'cos', 'tanh', 'arctan', 'erf'))


def SQRT(a):
    from .values import _SQRT
    return Real(_SQRT(z3.simplify(rterm(a))))


POWR, POWI = uf('power', 2), uf('ipower', 2, IS)


def isreal(*a):
    return any(isinstance(x, (Real, Rat, float)) for x in a)


def div(a, b):
    """quotient of reals; a division by zero has some value (the contracts exclude it or both sides have the same)"""
    ta, tb = z3.simplify(rterm(a)), z3.simplify(rterm(b))
    return Real(z3.simplify(ta / tb))


def fdiv(a, b):
    if isreal(a, b):
        return Real(z3.ToReal(z3.ToInt(rterm(div(a, b)))))
    return a // b


def fmod(a, b):
    if isreal(a, b):
        q = div(a, b)
        return a - b * conv(np.float64, q.trunc())
    m = abs(a) % abs(b)
    return sel(a < 0, -m, m)


def mod(a, b):
    if isreal(a, b):
        return a - b * fdiv(a, b)
    return a % b


def power(a, b):
    if isreal(a, b):
        return POWR(a, b)
    return POWI(a, b)


def truth(a):
    return a if isinstance(a, (bool, SymBool)) else a != 0


def band(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkb(z3.And(bterm(a), bterm(b)))
    return a & b


def bor(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkb(z3.Or(bterm(a), bterm(b)))
    return a | b


def bxor(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkb(z3.Xor(bterm(a), bterm(b)))
    return a ^ b


def lnot(a):
    return mkb(z3.Not(bterm(truth(a))))


def num(a):
    """numbers for arithmetic on booleans"""
    return conv(np.int64, a) if isinstance(a, (bool, SymBool)) else a


def eq(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkb(bterm(a) == bterm(b))
    return num(a) == num(b)


def neg(x):
    return ~x if is_sym(x) else not x


def ite(c, a, b):
    c = truth(c)
    if not is_sym(c):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkb(z3.If(c.t, bterm(a), bterm(b)))
    if isreal(a, b):
        return Real(z3.If(c.t, rterm(a), rterm(b)))
    return sel(c, num(a), num(b))


def rnd(x):
    return conv(np.float64, round(x)) if isreal(x) else x


def fl(x):
    return Real(z3.ToReal(z3.ToInt(rterm(x)))) if isreal(x) else x


def ce(x):
    return Real(z3.simplify(-z3.ToReal(z3.ToInt(-rterm(x))))) if isreal(x) else x


FUN = {
    'add': lambda a, b: num(a) + num(b), 'sub': lambda a, b: num(a) - num(b), 'mul': lambda a, b: num(a) * num(b), 'truediv': lambda a, b: div(num(a), num(b)),
    'floordiv': fdiv, 'mod': mod, 'pow': power, 'lt': lambda a, b: num(a) < num(b), 'le': lambda a, b: num(a) <= num(b),
    'gt': lambda a, b: num(a) > num(b), 'ge': lambda a, b: num(a) >= num(b), 'eq': eq, 'ne': lambda a, b: neg(eq(a, b)),
    'and_': band, 'or_': bor, 'xor': bxor,
    'subtract': lambda a, b: a - b, 'multiply': lambda a, b: num(a) * num(b), 'divide': div, 'true_divide': div, 'floor_divide': fdiv, 'remainder': mod, 'fmod': fmod,
    'power': power, 'less': lambda a, b: num(a) < num(b), 'less_equal': lambda a, b: num(a) <= num(b), 'greater': lambda a, b: num(a) > num(b),
    'greater_equal': lambda a, b: num(a) >= num(b), 'equal': eq, 'not_equal': lambda a, b: neg(eq(a, b)),
    'logical_and': lambda a, b: band(truth(a), truth(b)), 'logical_or': lambda a, b: bor(truth(a), truth(b)),
    'logical_xor': lambda a, b: bxor(truth(a), truth(b)), 'logical_not': lnot,
    'minimum': lambda a, b: ite(b < a, b, a), 'maximum': lambda a, b: ite(b > a, b, a), 'where': ite,
    'clip': lambda x, lo, hi: ite(ite(x < lo, lo, x) > hi, hi, ite(x < lo, lo, x)),
    'abs': abs, 'absolute': abs, 'negative': lambda a: -a, 'sign': lambda a: ite(a > 0, 1, ite(a < 0, -1, 0)), 'ceil': ce, 'floor': fl, 'round': rnd, 'rint': rnd,
    'trunc': lambda a: conv(np.float64, a.trunc()) if isreal(a) else a,
    'exp': EXP, 'log': LOG, 'sin': SIN, 'cos': COS, 'tanh': TANH, 'arctan': ATAN, 'sqrt': SQRT, 'reciprocal': lambda a: div(1, a), 'square': lambda a: a * a,
    'expm1': lambda a: EXP(a) - 1, 'log1p': lambda a: LOG(1 + a),
    'logaddexp': lambda a, b: LOG(num(EXP(a)) + num(EXP(b))), 'invert': lnot,
}
NF = {n: getattr(np, n) for n in ('add', 'subtract', 'multiply', 'true_divide', 'floor_divide', 'power', 'remainder')}
NF['or_'], NF['and_'] = np.bitwise_or, np.bitwise_and
FLOATING = {'exp', 'log', 'sin', 'cos', 'tanh', 'arctan', 'sqrt', 'expm1', 'log1p', 'logaddexp', 'truediv', 'divide', 'true_divide'}


# ------------------------------------------------------------------ arrays
def Tab():
    from .tab import Tab
    return Tab


def istab(*a):
    T = Tab()
    for x in a:
        if isinstance(x, T):
            return True
        if isinstance(x, (list, tuple)) and istab(*x):
            return True
    return False


def table(a, dt=None):
    """the array as a Tab; None when its elements are not tracked"""
    from .env import SymArr, objarr
    T = Tab()
    if isinstance(a, T):
        a.use()
        return T(a.shape, a.dtype, a.elem, a.base)      # later stores do not reach what is computed now
    if isinstance(a, SymArr):
        return None
    if isinstance(a, np.generic):
        return T([], a.dtype, lambda v=a.item(): v)
    if is_sym(a) or isinstance(a, (int, float, bool)):
        d = dt if dt is not None else np.bool_ if isinstance(a, (bool, SymBool)) else np.int64 if intlike(a) else np.float64
        return T([], d, lambda: a)
    if isinstance(a, (list, tuple)):
        if istab(a):
            return None
        a = objarr(list(a)) if any(is_sym(x) for x in np.array(a, dtype=object).reshape(-1)) else np.asarray(a)
    if isinstance(a, np.ndarray):
        if a.size > 400:
            return None
        d = a.dtype
        if d == object:
            d = np.dtype(np.float64 if any(isinstance(e, (Rat, Real, float)) for e in np.ndarray.reshape(a, -1)) else np.int64)
        return T(list(a.shape), d, pick(a))
    return None


def pick(a):
    ent = list(np.ndindex(*a.shape))

    def at(*i):
        if all(z3.is_int_value(simp(term(k))) for k in i):
            v = a[tuple(simp(term(k)).as_long() for k in i)]
            return v.item() if isinstance(v, np.generic) else v
        r = None
        for e in reversed(ent):
            v = a[e]
            v = v.item() if isinstance(v, np.generic) else v
            if r is None:
                r = v
                continue
            c = z3.And([term(x) == int(y) for x, y in zip(i, e)])
            r = ite(mkb(c), v, r)
        return r
    return at


def ixs(shape, i, out):
    """index of a broadcast operand"""
    d = len(out) - len(shape)
    r = []
    for k, n in enumerate(shape):
        t = term(n)
        o = term(out[k + d])
        if z3.eq(simp(t), simp(o)):
            r.append(i[k + d])
        elif z3.is_int_value(simp(t)):
            r.append(z3.IntVal(0) if simp(t).as_long() == 1 else i[k + d])
        else:
            r.append(pick_ix(simp(t == 1), simp(t == o), term(i[k + d])))
    return r


def pick_ix(one, same, i):
    """0 when the operand's extent is one, the result's index otherwise; decided from the path where that is possible"""
    p = P.cur()
    if not p.feasible(z3.And(one, i != 0)):
        return i
    if not p.feasible(z3.Not(one)):
        return z3.IntVal(0)
    return simp(z3.If(one, z3.IntVal(0), i))


def common(f, name, ts, nf):
    """(result element type, type the arithmetic is carried out in)"""
    return None


def elementwise(name, arrs, nf, kw=None):
    """None when an operand's elements are not tracked"""
    from .env import broadcast
    f = FUN.get(name)
    if f is None:
        return None
    ts = [table(a) for a in arrs]
    if any(t is None for t in ts) or any(isinstance(t.shape, Q.SymSeq) for t in ts):
        return None
    reps = [a if not hasattr(a, 'dtype') and not is_sym(a) else np.ones((1,), t.dtype) if t.shape or hasattr(a, 'dtype') else 1 if intlike(a) else 1.0 for a, t in zip(arrs, ts)]
    reps = [np.asarray(r) if isinstance(r, (list, tuple)) else r for r in reps]
    dt = np.asarray(nf(*reps)).dtype
    sh = broadcast(*ts)
    fl_ = kind(dt) == 'f' or name in FLOATING

    def elem(*i):
        vs = [t.elem(*ixs(t.shape, i, sh)) for t in ts]
        vs = [conv(t.dtype, x) for t, x in zip(ts, vs)]
        if fl_ and name not in ('where',):
            vs = [conv(np.float64, x) for x in vs]
        if not any(is_sym(x) for x in vs):
            return conv(dt, np.asarray(nf(*vs)).item())
        return conv(dt, f(*vs))
    return Tab()(sh, dt, elem)


# ------------------------------------------------------------------ reductions
DEPTH = [0]


def row(n, f, dt):
    """the row k -> f(k), k < n, as a lambda term"""
    p = P.cur()
    k = z3.Int('row!%d' % DEPTH[0])
    DEPTH[0] += 1
    nb = len(p.branch)
    p.solver.push()
    try:
        p.solver.add(k >= 0, k < term(n))
        b = simp2(zterm(dt, f(k)))
    finally:
        p.solver.pop()
        DEPTH[0] -= 1
    if len(p.branch) != nb:
        raise Unsupported('decision inside a row')
    c = z3.Int('row#%d' % height(b))      # the name depends on the term only: equal rows are equal terms
    return z3.Lambda([c], z3.substitute(b, (k, c)))


def height(t):
    """nesting of lambda terms"""
    seen = {}

    def go(t):
        i = t.get_id()
        if i not in seen:
            if z3.is_quantifier(t):
                seen[i] = 1 + go(t.body())
            else:
                seen[i] = max([go(c) for c in t.children()] + [0])
        return seen[i]
    return go(t)


def simp2(t):
    return z3.simplify(t)


def reduce1(what, n, f, dt):
    """fold of f(0..n-1); what: sum, prod, max, min, argmax"""
    tn = simp(term(n))
    if z3.is_int_value(tn):
        c = tn.as_long()
        if c > 64:
            raise Unsupported('fold of a long row')
        vs = [f(z3.IntVal(k)) for k in builtins.range(c)]
        if what == 'argmax':
            best, pos = conv(dt, vs[0]), 0
            for k, x in enumerate(vs[1:], 1):
                g = num(conv(dt, x)) > num(best)
                best, pos = ite(g, conv(dt, x), best), ite(g, k, pos)
            return pos
        if what in ('any', 'all'):
            r = what == 'all'
            for x in vs:
                r = (band if what == 'all' else bor)(r, truth(x))
            return r
        if not vs:
            if what in ('max', 'min'):
                raise ValueError('zero-size array to reduction operation %s which has no identity' % what)
            return 0 if what == 'sum' else 1
        r = num(conv(dt, vs[0]))
        for x in vs[1:]:
            x = num(conv(dt, x))
            r = r + x if what == 'sum' else r * x if what == 'prod' else ite(x > r, x, r) if what == 'max' else ite(x < r, x, r)
        return r
    if what in ('max', 'min', 'argmax') and bool(n <= 0):
        raise ValueError('zero-size array to reduction operation %s which has no identity' % what)
    if kind(dt) == 'b':
        if what in ('sum', 'prod'):
            dt, g = np.int64, f
            f = lambda k: conv(np.int64, g(k))
    if what in ('any', 'all'):
        g = f
        f, dt = (lambda k: truth(g(k))), np.bool_
    s = sort_of(dt)
    lam = row(n, f, dt)
    F = z3.Function('%s_%s' % (what, s.name()), z3.ArraySort(IS, s), IS, IS if what == 'argmax' else s)
    r = F(lam, tn)
    if what == 'argmax':
        P.cur().assume(z3.And(r >= 0, r < tn))
        return mk(r)
    return wrap(dt, r)


def axes_of(axis, r):
    if axis is None:
        return list(builtins.range(r))
    ax = list(axis) if isinstance(axis, (tuple, list)) else [axis]
    out = []
    for a in ax:
        a = int(a.item() if isinstance(a, np.ndarray) else a)
        if not -r <= a < r:
            raise np.exceptions.AxisError(a, r)
        a %= r
        if a in out:
            raise ValueError('duplicate value in axis')
        out.append(a)
    return sorted(out)


def reduction(what, x, axis=None, keepdims=False, dt=None):
    t = table(x)
    r = len(t.shape)
    ax = axes_of(axis, r)
    keep = bool(keepdims)
    rd = np.dtype(dt) if dt is not None else t.dtype
    inner = rd if what != 'argmax' else t.dtype
    osh = [1 if k in ax else n for k, n in enumerate(t.shape) if keep or k not in ax]
    if what in ('max', 'min', 'argmax'):
        for k in ax:
            if bool(t.shape[k] <= 0):
                raise ValueError('zero-size array to reduction operation which has no identity')

    def elem(*i):
        full = list(i) if keep else None
        if not keep:
            it = iter(i)
            full = [None if k in ax else next(it) for k in builtins.range(r)]

        def go(left, idx):
            if not left:
                return conv(inner, t.elem(*idx))
            a = left[0]

            def f(k):
                j = list(idx)
                j[a] = k
                return go(left[1:], j)
            return reduce1(what, t.shape[a], f, inner if what not in ('any', 'all') else np.bool_)
        return conv(np.bool_ if what in ('any', 'all') else np.int64 if what == 'argmax' else rd, go(ax, full))
    if what == 'argmax' and len(ax) != 1:
        raise Unsupported('argmax over several axes')
    return Tab()(osh, np.bool_ if what in ('any', 'all') else np.int64 if what == 'argmax' else rd, elem)


def acc_dtype(dt):
    return np.sum(np.zeros((1,), dt)).dtype


def t_sum(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduction('sum', x, axis, keepdims, dtype or acc_dtype(x.dtype))


def t_prod(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduction('prod', x, axis, keepdims, dtype or acc_dtype(x.dtype))


def t_max(x, axis=None, out=None, keepdims=False, **k):
    return reduction('max', x, axis, keepdims)


def t_min(x, axis=None, out=None, keepdims=False, **k):
    return reduction('min', x, axis, keepdims)


def t_all(x, axis=None, out=None, keepdims=False, **k):
    return reduction('all', x, axis, keepdims)


def t_any(x, axis=None, out=None, keepdims=False, **k):
    return reduction('any', x, axis, keepdims)


def t_mean(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    rd = np.dtype(dtype) if dtype is not None else np.mean(np.zeros((1,), x.dtype)).dtype
    n = 1
    for a in axes_of(axis, len(x.shape)):
        n = n * x.shape[a]
    s = reduction('sum', x.astype(np.float64) if kind(x.dtype) != 'f' else x, axis, keepdims, np.float64)
    return Tab()(s.shape, rd, lambda *i: conv(rd, div(s.elem(*i), n)))


def t_argmax(x, axis=None, out=None, keepdims=False, **k):
    if axis is None:
        raise Unsupported('argmax of a flattened array')
    return reduction('argmax', x, axis, keepdims)


def t_cumsum(x, axis=None, dtype=None, out=None):
    t = table(x)
    if axis is None:
        raise Unsupported('cumsum of a flattened array')
    a = axes_of(axis, len(t.shape))[0]
    rd = np.dtype(dtype) if dtype is not None else acc_dtype(t.dtype)

    def elem(*i):
        def f(k):
            j = list(i)
            j[a] = k
            return conv(rd, t.elem(*j))
        return conv(rd, reduce1('sum', mk(simp(term(i[a]) + 1)), f, rd))
    return Tab()(t.shape, rd, elem)


def t_matmul(a, b):
    from .env import broadcast
    a, b = table(a), table(b)
    ra, rb = len(a.shape), len(b.shape)
    if not ra or not rb:
        raise ValueError('matmul: input operand does not have enough dimensions')
    ka, kb = a.shape[-1], b.shape[-2] if rb > 1 else b.shape[0]
    if bool(neg(num(ka) == kb) if is_sym(ka == kb) else ka != kb):
        raise ValueError('matmul: mismatch in its core dimension')
    dt = np.matmul(np.zeros((1, 1), a.dtype), np.zeros((1, 1), b.dtype)).dtype
    ba, bb = list(a.shape[:-2]) if ra > 1 else [], list(b.shape[:-2]) if rb > 1 else []
    T = Tab()
    bs = list(broadcast(T(ba, a.dtype, None), T(bb, b.dtype, None)))
    osh = bs + ([a.shape[-2]] if ra > 1 else []) + ([b.shape[-1]] if rb > 1 else [])

    def elem(*i):
        h, tl = list(i[:len(bs)]), list(i[len(bs):])
        ia, ib = ixs(ba, h, bs), ixs(bb, h, bs)
        m = [tl[0]] if ra > 1 else []
        n = [tl[-1]] if rb > 1 else []
        return conv(dt, reduce1('sum', ka, lambda k: conv(dt, a.elem(*(ia + m + [k]))) * conv(dt, b.elem(*(ib + [k] + n))), dt))
    return T(osh, dt, elem)


# ------------------------------------------------------------------ rearrangements
def intlist(x):
    from .env import objarr
    if isinstance(x, np.ndarray):
        return list(objarr(x).reshape(-1))
    if isinstance(x, (list, tuple)):
        return list(x)
    return [x]


def t_transpose(x, axes=None):
    t = table(x)
    r = len(t.shape)
    ax = list(builtins.range(r))[::-1] if axes is None else [int(a) for a in intlist(axes)]
    if sorted(a % r if -r <= a < r else -1 for a in ax) != list(builtins.range(r)):
        raise ValueError("axes don't match array")
    ax = [a % r for a in ax]

    def elem(*i):
        j = [None] * r
        for k, a in enumerate(ax):
            j[a] = i[k]
        return t.elem(*j)
    return Tab()([t.shape[a] for a in ax], t.dtype, elem)


def t_swapaxes(x, a, b):
    r = len(x.shape)
    a, b = axes_of(a, r)[0], axes_of(b, r)[0]
    ax = list(builtins.range(r))
    ax[a], ax[b] = ax[b], ax[a]
    return t_transpose(x, ax)


def t_moveaxis(x, s, d):
    r = len(x.shape)
    s, d = axes_of(s, r)[0], axes_of(d, r)[0]
    ax = [k for k in builtins.range(r) if k != s]
    ax.insert(d, s)
    return t_transpose(x, ax)


def t_expand_dims(x, axis):
    t = table(x)
    axs = [int(a) for a in intlist(axis)]
    n = len(t.shape) + len(axs)
    for a in axs:
        if not -n <= a < n:
            raise np.exceptions.AxisError(a, n)
    axs = [a % n for a in axs]
    if len(set(axs)) != len(axs):
        raise ValueError('repeated axis')
    it = iter(t.shape)
    return Tab()([1 if k in axs else next(it) for k in builtins.range(n)], t.dtype, lambda *i: t.elem(*[i[k] for k in builtins.range(n) if k not in axs]))


def t_squeeze(x, axis=None):
    t = table(x)
    r = len(t.shape)
    if axis is None:
        ax = [k for k, n in enumerate(t.shape) if bool(n == 1)]
    else:
        ax = axes_of(axis, r)
        for a in ax:
            if bool(t.shape[a] != 1):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')

    def elem(*i):
        it = iter(i)
        return t.elem(*[z3.IntVal(0) if k in ax else next(it) for k in builtins.range(r)])
    return Tab()([n for k, n in enumerate(t.shape) if k not in ax], t.dtype, elem)


def nontrivial(shape):
    return [k for k, n in enumerate(shape) if not (z3.is_int_value(simp(term(n))) and simp(term(n)).as_long() == 1)]


def encode(shape, i):
    """row-major position"""
    r = None
    for n, k in zip(shape, i):
        r = mk(term(k)) if r is None else r * n + mk(term(k))
    return 0 if r is None else r


def decode(shape, pos):
    out = []
    rest = pos
    for n in reversed(shape[1:]):
        out.append(rest % n)
        rest = rest // n
    return ([rest] if shape else []) + out[::-1]


def regroup(old, new):
    """pairs of slices of the two shapes that hold the same block of axes (syntactically equal products)"""
    import itertools
    i = j = 0
    out = []
    while i < len(old) or j < len(new):
        a, b = i, j
        done = False
        best = None
        for da in builtins.range(1 if a < len(old) else 0, len(old) - a + 1):
            for db in builtins.range(1 if b < len(new) else 0, len(new) - b + 1):
                pa, pb = 1, 1
                for n in old[a:a + da]:
                    pa = pa * n
                for n in new[b:b + db]:
                    pb = pb * n
                if z3.eq(simp(term(pa)), simp(term(pb))) or z3.is_true(z3.simplify(term(pa) == term(pb))):
                    if best is None or da + db < best[0] + best[1]:
                        best = (da, db)
        if best is None:
            out.append((slice(a, len(old)), slice(b, len(new))))
            return out
        out.append((slice(a, a + best[0]), slice(b, b + best[1])))
        i, j = a + best[0], b + best[1]
        if best == (0, 0):
            return None
    return out


def t_reshape(x, shape, *more, **k):
    from . import env
    t = table(x)
    if more:
        shape = (shape,) + more
    sh = env._reshape0(env.SymArr(t.shape, t.dtype), shape).shape
    return reshaped(t, list(sh))


def reshaped(t, sh):
    old = list(t.shape)
    g = regroup(old, sh)

    def elem(*i):
        out = []
        for so, sn in (g or [(slice(0, len(old)), slice(0, len(sh)))]):
            o, n, ii = old[so], sh[sn], list(i[sn])
            if len(o) == 1 and len(n) == 1:
                out += ii
            elif len(n) == 1 and False:
                pass
            elif not o:
                continue
            else:
                out += [ix_(e) for e in decode(o, encode(n, ii))]
        return t.elem(*out)
    return Tab()(sh, t.dtype, elem)


def ix_(i):
    return simp(term(i))


def t_concatenate(xs, axis=0, dtype=None, **k):
    ts = [table(x) for x in xs]
    if any(x is None for x in ts):
        raise Unsupported('concatenation of untracked arrays')
    r = len(ts[0].shape)
    if any(len(x.shape) != r for x in ts):
        raise ValueError('all the input array dimensions must match')
    if axis is None:
        raise Unsupported('concatenation of flattened arrays')
    a = axes_of(axis, r)[0]
    for x in ts[1:]:
        for k_ in builtins.range(r):
            if k_ != a and bool(x.shape[k_] != ts[0].shape[k_]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    dt = np.result_type(*[x.dtype for x in ts])
    offs = [0]
    for x in ts:
        offs.append(offs[-1] + x.shape[a])
    sh = list(ts[0].shape)
    sh[a] = offs[-1]

    def elem(*i):
        v = None
        for x, o in reversed(list(zip(ts, offs))):
            j = list(i)
            j[a] = simp(term(i[a]) - term(o))
            w = conv(dt, x.elem(*j))
            v = w if v is None else ite(mkb(z3.simplify(term(i[a]) < term(o + x.shape[a]))), w, v)
        return v
    return Tab()(sh, dt, elem)


def t_stack(xs, axis=0, **k):
    return t_concatenate([t_expand_dims(table(x), axis) for x in xs], axis)


def t_split(x, where, axis=0):
    t = table(x)
    a = axes_of(axis, len(t.shape))[0]
    n = t.shape[a]
    if isinstance(where, int) or is_sym(where):
        c = int(where)
        if bool(n % c != 0):
            raise ValueError('array split does not result in an equal division')
        cuts = [n // c * k for k in builtins.range(c + 1)]
        return [view(t, [slice(None)] * a + [slice(u, w)]) for u, w in zip(cuts, cuts[1:])]
    pos = [0] + intlist(where) + [n]
    out = []
    for u, w in zip(pos, pos[1:]):
        out.append(view(t, [slice(None)] * a + [slice(u, w)]))
    return out


def t_take(x, idx, axis=None, **k):
    t = table(x)
    it = table(idx)
    if it is None:
        raise Unsupported('take at untracked positions')
    if axis is None:
        t = reshaped(t, [prod(t.shape)])
        axis = 0
    a = axes_of(axis, len(t.shape))[0]
    n = t.shape[a]
    ks = [P.cur().fresh('any') for _ in it.shape]
    P.cur().solver.push()
    try:
        bad = None
        for kk, m in zip(ks, it.shape):
            P.cur().solver.add(kk >= 0, kk < term(m))
        e = it.elem(*ks)
        bad = z3.simplify(z3.Or(term(e) < -term(n), term(e) >= term(n)))
        st = P.cur().solver
        full = z3.Solver()
        full.set('timeout', 4000)
        full.add(*P.cur().conds)
        full.add(*[z3.And(kk >= 0, kk < term(m)) for kk, m in zip(ks, it.shape)])
        r = full.check(bad)
    finally:
        P.cur().solver.pop()
    if r != z3.unsat:
        raise Unsupported('take at positions not known to be in range')
    q = len(it.shape)

    def elem(*i):
        e = mk(simp(term(it.elem(*i[a:a + q]))))
        e = sel(e < 0, e + n, e)
        return t.elem(*(list(i[:a]) + [ix_(e)] + list(i[a + q:])))
    return Tab()(list(t.shape[:a]) + list(it.shape) + list(t.shape[a + 1:]), t.dtype, elem)


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def t_tile(x, reps):
    t = table(x)
    reps = intlist(reps)
    n = builtins.max(len(t.shape), len(reps))
    s = [1] * (n - len(t.shape)) + list(t.shape)
    reps = [1] * (n - len(reps)) + reps
    for r_ in reps:
        if bool(r_ < 0):
            raise ValueError('negative dimensions are not allowed')
    d = n - len(t.shape)

    def elem(*i):
        return t.elem(*[ix_(mk(term(i[k])) % s[k]) for k in builtins.range(d, n)])
    return Tab()([a * b for a, b in zip(s, reps)], t.dtype, elem)


def t_repeat(x, reps, axis=None):
    t = table(x)
    a = axes_of(axis, len(t.shape))[0]
    if not (isinstance(reps, int) or is_sym(reps)):
        raise Unsupported('repeat by an array')

    def elem(*i):
        j = list(i)
        j[a] = ix_(mk(term(i[a])) // reps)
        return t.elem(*j)
    sh = list(t.shape)
    sh[a] = sh[a] * reps
    return Tab()(sh, t.dtype, elem)


def t_flip(x, axis=None):
    t = table(x)
    ax = axes_of(axis, len(t.shape))
    return Tab()(t.shape, t.dtype, lambda *i: t.elem(*[simp(term(t.shape[k]) - 1 - term(e)) if k in ax else e for k, e in enumerate(i)]))


def tri(x, k, upper):
    t = table(x)
    if len(t.shape) < 2:
        raise Unsupported('triangle of a vector')
    kk = table(k).elem() if not is_sym(k) and not isinstance(k, int) else k
    z = False if kind(t.dtype) == 'b' else 0.0 if kind(t.dtype) == 'f' else 0

    def elem(*i):
        d = mk(simp(term(i[-1]) - term(i[-2])))
        c = d >= kk if upper else d <= kk
        return ite(c, conv(t.dtype, t.elem(*i)), z)
    return Tab()(t.shape, t.dtype, elem)


def t_tril(x, k=0):
    return tri(x, k, False)


def t_triu(x, k=0):
    return tri(x, k, True)


def t_broadcast_to(x, shape):
    from .env import broadcast
    t = table(x)
    sh = intlist(shape)
    o = broadcast(t, Tab()(sh, t.dtype, None))
    if len(o) != len(sh) or any(bool(a != b) for a, b in zip(o, sh)):
        raise ValueError('operands could not be broadcast together with remapped shapes')
    return Tab()(sh, t.dtype, lambda *i: t.elem(*ixs(t.shape, i, sh)))


def t_pad(x, pad_width, mode='constant', constant_values=0, **k):
    from .env import objarr
    t = table(x)
    r = len(t.shape)
    if istab(pad_width):
        w = table(pad_width)
        pw = [[w.elem(z3.IntVal(a), z3.IntVal(b)) for b in (0, 1)] for a in builtins.range(r)]
    else:
        w = objarr(pad_width if isinstance(pad_width, np.ndarray) else [list(e) for e in pad_width])
        if w.shape != (r, 2):
            raise ValueError('operands could not be broadcast together')
        pw = [[w[a, 0], w[a, 1]] for a in builtins.range(r)]
    for a in pw:
        for e in a:
            if bool(e < 0):
                raise ValueError("index can't contain negative values")
    cv = table(constant_values)
    sh = [n + a + b for n, (a, b) in zip(t.shape, pw)]

    def elem(*i):
        js, inside = [], True
        for k_, n in enumerate(t.shape):
            j = mk(simp(term(i[k_]) - term(pw[k_][0])))
            ok = band(j >= 0, j < n) if is_sym(j >= 0) or is_sym(j < n) else bool(j >= 0) and bool(j < n)
            if mode == 'constant':
                inside = band(inside, ok)
            elif mode == 'edge':
                j = sel(j < 0, 0, sel(j >= n, n - 1, j))
            elif mode in ('reflect', 'wrap'):
                raise Unsupported('padding mode ' + mode)
            else:
                raise Unsupported('padding mode %s' % mode)
            js.append(ix_(j))
        v = conv(t.dtype, t.elem(*js))
        if mode != 'constant':
            return v
        return ite(inside, v, conv(t.dtype, cv.elem(*([z3.IntVal(0)] * len(cv.shape)))))
    if mode not in ('constant', 'edge'):
        raise Unsupported('padding mode %s' % mode)
    if mode == 'edge':
        for n, (a, b) in zip(t.shape, pw):
            if bool(n <= 0) and bool(a + b > 0):
                raise ValueError("can't extend empty axis")
    return Tab()(sh, t.dtype, elem)


def t_compress(cond, x, axis=None):
    t = table(x)
    c = [conv(np.bool_, e) for e in intlist(cond)] if not istab(cond) else None
    if c is None:
        raise Unsupported('compress by a condition of symbolic length')
    if axis is None:
        t, axis = reshaped(t, [prod(t.shape)]), 0
    a = axes_of(axis, len(t.shape))[0]
    keep = [k for k, e in enumerate(c) if bool(e)]
    if keep and bool(keep[-1] >= t.shape[a]):
        raise IndexError('index out of bounds')

    def elem(*i):
        v = None
        for k, src in reversed(list(enumerate(keep))):
            j = list(i)
            j[a] = z3.IntVal(src)
            w = t.elem(*j)
            v = w if v is None else ite(mkb(z3.simplify(term(i[a]) == k)), w, v)
        return v if v is not None else conv(t.dtype, 0)
    sh = list(t.shape)
    sh[a] = len(keep)
    return Tab()(sh, t.dtype, elem)


# ------------------------------------------------------------------ indexing
def view(t, idx):
    """basic indexing: integers, slices with any step, None, Ellipsis"""
    idx = list(idx) if isinstance(idx, (tuple, list)) else [idx]
    if any(e is Ellipsis for e in idx):
        k = [e is Ellipsis for e in idx].index(True)
        n = len(t.shape) - sum(1 for e in idx if e is not None and e is not Ellipsis)
        idx = idx[:k] + [slice(None)] * n + idx[k + 1:]
    real = [e for e in idx if e is not None]
    if len(real) > len(t.shape):
        raise IndexError('too many indices for array')
    idx = idx + [slice(None)] * (len(t.shape) - len(real))
    src, sh = [], []          # per source axis: ('at', i) or ('go', position in the result, start, step)
    k = 0
    for e in idx:
        if e is None:
            sh.append(1)
            continue
        n = t.shape[k]
        k += 1
        if isinstance(e, slice):
            lo, st, ln = bounds(e, n)
            src.append((len(sh), lo, st))
            sh.append(ln)
        else:
            if isinstance(e, np.ndarray) and e.ndim == 0:
                e = e[()]
            src.append((None, t.in_range(e, n), 0))

    def elem(*i):
        return t.elem(*[ix_(lo if p is None else lo + mk(term(i[p])) * st if not (isinstance(st, int) and st == 1) else lo + mk(term(i[p]))) for p, lo, st in src])
    return Tab()(sh, t.dtype, elem)


def bounds(e, n):
    """(start, step, length) of a slice of n elements"""
    st = 1 if e.step is None else e.step
    if isinstance(st, np.ndarray):
        st = st[()]
    if not is_sym(st):
        st = int(st)
    if bool(st == 0):
        raise ValueError('slice step cannot be zero')

    def clamp(v, lo, hi):
        if isinstance(v, np.generic):
            v = v.item()
        v = sel(v < 0, v + n, v)
        v = sel(v < lo, lo, v)
        return sel(v > hi, hi, v)
    if bool(st > 0):
        a = 0 if e.start is None else clamp(e.start, 0, n)
        b = n if e.stop is None else clamp(e.stop, 0, n)
        ln = b - a if isinstance(st, int) and st == 1 else -((a - b) // st)
    else:
        a = n - 1 if e.start is None else clamp(e.start, -1, n - 1)
        b = -1 if e.stop is None else clamp(e.stop, -1, n - 1)
        ln = -((b - a) // (-st))
    if not is_sym(ln) and isinstance(ln, int):
        ln = builtins.max(ln, 0)
    else:
        ln = sel(ln < 0, 0, ln)
    return a, st, ln


def t_clip(x, lo=None, hi=None, **k):
    lo, hi = k.get('a_min', k.get('min', lo)), k.get('a_max', k.get('max', hi))
    if lo is not None:
        x = elementwise('maximum', (x, lo), np.maximum)
    if hi is not None:
        x = elementwise('minimum', (x, hi), np.minimum)
    return x


TABLE = {'sum': t_sum, 'prod': t_prod, 'max': t_max, 'min': t_min, 'amax': t_max, 'amin': t_min, 'all': t_all, 'any': t_any, 'mean': t_mean, 'argmax': t_argmax,
         'cumsum': t_cumsum, 'matmul': t_matmul, 'transpose': t_transpose, 'swapaxes': t_swapaxes, 'moveaxis': t_moveaxis, 'expand_dims': t_expand_dims,
         'squeeze': t_squeeze, 'reshape': t_reshape, 'take': t_take, 'tile': t_tile, 'repeat': t_repeat, 'flip': t_flip, 'tril': t_tril, 'triu': t_triu,
         'broadcast_to': t_broadcast_to, 'pad': t_pad, 'split': t_split}


def viewing(f):
    def g(x, *a, **k):
        r = f(x, *a, **k)
        if isinstance(x, Tab()):
            for y in r if isinstance(r, list) else [r]:
                x.seen(y)
        return r
    return g


for _n in ('transpose', 'swapaxes', 'moveaxis', 'expand_dims', 'squeeze', 'reshape', 'flip', 'broadcast_to', 'split'):
    TABLE[_n] = viewing(TABLE[_n])


def inputs(name, shape, dtype, lo=None, hi=None, nonzero=False):
    """an array of symbolic elements"""
    s = sort_of(dtype)
    W = z3.Function(name, *([IS] * len(shape) + [s])) if shape else None
    c = z3.Const(name, s)

    def facts(w):
        cs = []
        if lo is not None:
            cs.append(w >= term(lo) if s == IS else w >= rterm(lo))
        if hi is not None:
            cs.append(w <= term(hi) if s == IS else w <= rterm(hi))
        if nonzero:
            cs.append(w != 0)
        return cs

    def elem(*i):
        w = W(*[simp(term(k)) for k in i]) if shape else c
        p = P.cur()
        key = ('fact', w.get_id())
        if key not in p.divs:           # the facts hold of every element: stated for the ones that are read
            p.divs[key] = (None, w)
            for f in facts(w):
                p.assume(f)
        return wrap(dtype, w)
    return Tab()(shape, dtype, elem, (name, W, False) if shape else None)
