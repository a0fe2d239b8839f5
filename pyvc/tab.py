"""Arrays of symbolic shape whose elements are tracked: element(index) is a term, a store loop replaces it by the
value the loop body stores at that index.  min / max of a region obey their defining contract (a lower / upper
bound of every element of the region, attained inside it)."""
import builtins
import z3
import numpy as np
from . import path as P
from .path import Unsupported
from .values import SymInt, SymBool, Rat, Real, is_sym, mk, mkb, simp, term as _term, bterm, select, sel, intlike, rterm, cmp
from . import seq as Q
from .env import SymArr, _cast


def term(x):
    return x if z3.is_expr(x) else _term(x)


def ix(i):
    return simp(term(i))


class Tab(SymArr):
    """elem(*indices as z3 terms) -> symbolic scalar; indices are in range when it is called"""

    def __init__(self, shape, dtype, elem, base=None):
        SymArr.__init__(self, shape, dtype)
        if isinstance(self.shape, list):
            self.shape = tuple(self.shape)
        self.elem = elem
        self.base = base            # (name, function) of an input array: min / max regions are named after it

    writable = False
    version = 0
    tab = None

    def copy(self):
        r = Tab(self.shape, self.dtype, self.elem, self.base)
        r.writable = True
        return r

    def fill(self, v):
        self[(slice(None),) * len(self.shape)] = v

    def astype(self, dt, *a, **k):
        e, src = self.elem, self.dtype
        return Tab(self.shape, dt, lambda *i: cast(dt, src, e(*i)), self.base if np.dtype(dt).kind == np.dtype(self.dtype).kind else None)

    def transpose(self, *a):
        if len(self.shape) != 2 or a:
            from . import vals
            return vals.TABLE['transpose'](self, (a[0] if len(a) == 1 and not intlike(a[0]) else list(a)) if a else None)
        e = self.elem
        return self.seen(Tab(self.shape[::-1], self.dtype, lambda i, j: e(j, i), self.base and (self.base[0], self.base[1], not self.base[2])))

    T = property(lambda self: self.transpose())

    def in_range(self, i, n):
        if hasattr(i, 'dtype'):
            i = int(i)
        if not intlike(i):
            raise Unsupported('index %r' % type(i))
        if builtins.bool(i < 0):
            i = i + n
            if builtins.bool(i < 0):
                raise IndexError('index out of bounds')
        if builtins.bool(i >= n):
            raise IndexError('index out of bounds')
        return i

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = tuple(idx) if isinstance(idx, np.ndarray) and idx.ndim == 1 else (idx,)
        idx = tuple(e.item() if isinstance(e, np.ndarray) and not e.ndim and np.dtype(getattr(e, 'tag', None) or e.dtype).kind != 'b' else e for e in idx)
        if any(e is None or e is Ellipsis or (isinstance(e, slice) and e.step is not None) or (isinstance(e, np.ndarray) and not e.ndim) for e in idx):
            from . import vals
            return self.seen(vals.view(self, idx))
        if any(isinstance(e, tuple) for e in idx):      # a[(i,), :] selects row i as a 1-row array
            if len(idx) == 2 and isinstance(idx[0], tuple) and len(idx[0]) == 1 and idx[1] == slice(None):
                i = self.in_range(idx[0][0], self.shape[0])
                return Region(self, [(i, i + 1), (0, self.shape[1])], [False, False])
            raise Unsupported('index arrays')
        if len(idx) > len(self.shape):
            raise IndexError('too many indices')
        idx = idx + (slice(None),) * (len(self.shape) - len(idx))
        if not any(isinstance(e, slice) for e in idx):
            return self.elem(*[ix(self.in_range(e, n)) for e, n in zip(idx, self.shape)])
        rg, dropped = [], []
        for e, n in zip(idx, self.shape):
            if isinstance(e, slice):
                if e.step not in (None, 1):
                    raise Unsupported('slice with a step')
                lo, hi = bound(e.start, 0, n), bound(e.stop, n, n)
                rg.append((lo, sel(hi < lo, lo, hi)))
                dropped.append(False)
            else:
                e = self.in_range(e, n)
                rg.append((e, e + 1))
                dropped.append(True)
        return Region(self, rg, dropped)

    def seen(self, r):
        """r is, or may be, a view of this array: stores to either are refused from here on unless they are known to agree"""
        if isinstance(r, Tab) and r is not self:
            r.of = (self, self.version)
        return r

    of = None

    def use(self):
        t = self
        while t.of is not None:
            if t.of[0].version != t.of[1]:
                raise Unsupported('view of an array that has been stored to since')
            t = t.of[0]

    def inplace(self, name, y):
        from . import vals
        self.use()
        t = vals.elementwise(name, (self, y), vals.NF[name])
        if t is None:
            raise Unsupported('in-place operation on an array whose elements are not tracked')
        if len(t.shape) != len(self.shape) or (np.dtype(t.dtype).kind, np.dtype(self.dtype).kind) in (('f', 'i'), ('f', 'u'), ('i', 'b'), ('u', 'b'), ('f', 'b')):
            raise TypeError('in-place result does not fit')
        e, dt = t.elem, self.dtype
        if self.of is not None:
            self.through(t)
        self.elem, self.base = (lambda *i: vals.conv(dt, e(*i))), None
        self.version += 1
        return self

    def through(self, t):
        raise Unsupported('in-place operation on a view')

    def __iadd__(self, y): return self.inplace('add', y)
    def __isub__(self, y): return self.inplace('subtract', y)
    def __imul__(self, y): return self.inplace('multiply', y)
    def __itruediv__(self, y): return self.inplace('true_divide', y)
    def __ifloordiv__(self, y): return self.inplace('floor_divide', y)
    def __ipow__(self, y): return self.inplace('power', y)
    def __imod__(self, y): return self.inplace('remainder', y)
    def __ior__(self, y): return self.inplace('or_', y)
    def __iand__(self, y): return self.inplace('and_', y)

    def __setitem__(self, idx, v):
        from . import vals
        if not self.writable:
            raise Unsupported('store to an array that may be shared')
        self.use()
        if not isinstance(idx, tuple):
            idx = (idx,)
        if all(isinstance(e, slice) and e == slice(None) for e in idx):
            idx = ()
        if not all(intlike(e) or hasattr(e, 'dtype') for e in idx):
            raise Unsupported('store of a slice')
        idx = [self.in_range(e, n) for e, n in zip(idx, self.shape)]
        t = vals.table(v)
        rest = list(self.shape[len(idx):])
        o = vals.t_broadcast_to(t, rest) if rest or t.shape else t
        old, dt = self.elem, self.dtype

        def elem(*i):
            c = z3.And([vals.term(a) == vals.term(b) for a, b in zip(i, idx)]) if idx else z3.BoolVal(True)
            return vals.ite(mkb(z3.simplify(c)), vals.conv(dt, oe(*i[len(idx):])), vals.conv(dt, old(*i)))
        oe = o.elem
        self.elem, self.base = elem, None
        self.version += 1

    def min(self, axis=None, keepdims=False, **k):
        if self.base is None or axis is not None or keepdims:
            from . import vals
            return vals.t_min(self, axis, keepdims=keepdims)
        return Region(self, [(0, n) for n in self.shape], [False] * len(self.shape)).min(axis, keepdims)

    def max(self, axis=None, keepdims=False, **k):
        if self.base is None or axis is not None or keepdims:
            from . import vals
            return vals.t_max(self, axis, keepdims=keepdims)
        return Region(self, [(0, n) for n in self.shape], [False] * len(self.shape)).max(axis, keepdims)

    def __len__(self):
        raise Unsupported('length')

    def size_(self):
        r = 1
        for n in self.shape:
            r = r * n
        return r

    def __iter__(self):
        n = simp(term(self.shape[0])) if self.shape else None
        if n is None:
            raise TypeError('iteration over a 0-d array')
        if not z3.is_int_value(n):
            raise Unsupported('iteration over an array of symbolic length')
        return iter([self[k] for k in range(n.as_long())])


def bound(v, dflt, n):
    if v is None:
        return dflt
    v = sel(v < 0, v + n, v)
    v = sel(v < 0, 0, v)
    return sel(v > n, n, v)


class Region(Tab):
    """a rectangular view"""

    def __init__(self, tab, rg, dropped):
        tab.use()
        get = tab.elem

        def elem(*i):
            it = iter(i)
            return get(*[ix(lo) if d else simp(term(lo) + term(next(it))) for (lo, hi), d in zip(rg, dropped)])
        Tab.__init__(self, [hi - lo for (lo, hi), d in zip(rg, dropped) if not d], tab.dtype, elem)
        self.tab, self.rg, self.dropped = tab, rg, dropped
        self.of = (tab, tab.version)

    def through(self, t):
        k = len([d for d in self.dropped if d])
        if not all(self.dropped[:k]) or any(P.cur().feasible(z3.Not(z3.And(term(lo) == 0, term(hi) == term(n))))
                                            for (lo, hi), n in list(zip(self.rg, self.tab.shape))[k:]):
            raise Unsupported('in-place operation on a view')
        self.tab[tuple(lo for lo, hi in self.rg[:k])] = t
        self.of = (self.tab, self.tab.version)

    def min(self, axis=None, keepdims=False, **k):
        return self.extreme('min', axis, keepdims)

    def max(self, axis=None, keepdims=False, **k):
        return self.extreme('max', axis, keepdims)

    def extreme(self, what, axis, keepdims):
        self.use()
        if axis is not None or keepdims or self.tab.base is None:
            from . import vals
            return vals.reduction(what, self, axis, keepdims)
        return extreme(self.tab.base, what, self.rg)

    def __getattr__(self, n):
        raise Unsupported('array view: %s' % n)


def extreme(base, what, rg):
    name, W, flip = base
    p = P.cur()
    rg = rg[::-1] if flip else rg
    for lo, hi in rg:
        if builtins.bool(hi <= lo):
            raise ValueError('zero-size array to reduction operation which has no identity')
    ts = [simp(term(x)) for pair in rg for x in pair]
    key = ('extreme', what, name) + tuple(t.get_id() for t in ts)
    if key in p.divs:
        return p.divs[key][0]
    F = z3.Function('%s_%s' % (what, name), *([z3.IntSort()] * len(ts) + [W.range()]))
    m = F(*ts)
    vs = [z3.Int('%s!%d' % (name, k)) for k in range(len(rg))]
    inside = z3.And([z3.And(vs[k] >= ts[2 * k], vs[k] < ts[2 * k + 1]) for k in range(len(rg))])
    w = W(*vs)
    p.assume(z3.ForAll(vs, z3.Implies(inside, m <= w if what == 'min' else m >= w), patterns=[w]))
    ws = [z3.Function('at%d_%s_%s' % (k, what, name), *([z3.IntSort()] * (len(ts) + 1)))(*ts) for k in range(len(rg))]
    p.assume(z3.And([z3.And(ws[k] >= ts[2 * k], ws[k] < ts[2 * k + 1]) for k in range(len(rg))]))
    p.assume(W(*ws) == m)
    r = Real(m) if W.range() == z3.RealSort() else SymInt(m)
    p.divs[key] = (r, ts)
    return r


def symtab(name, shape, dtype):
    real = np.dtype(dtype).kind == 'f'
    W = z3.Function(name, *([z3.IntSort()] * len(shape) + [z3.RealSort() if real else z3.IntSort()]))
    return Tab(shape, dtype, lambda *i: (Real if real else SymInt)(W(*i)), (name, W, False))


def const(shape, dtype, v):
    v = float(v) if np.dtype(dtype).kind == 'f' else v
    r = Tab(shape, dtype, lambda *i: v)
    r.writable = True
    return r


def from_seq(s, dtype=None):
    """numpy.array of a list of symbolic length (1-D, or 2-D when its elements are such lists)"""
    p = P.cur()
    if builtins.bool(s.n <= 0):
        return Tab([0], dtype or np.float64, lambda i: 0.0)
    k = p.fresh('row')
    p.assume(z3.And(k >= 0, k < Q.T(s.n)))
    e = s.at(k)
    if isinstance(e, Q.SymSeq):
        n1 = simp(Q.T(e.n))
        if has_var(n1, k):
            raise Unsupported('ragged list')
        r = Tab([s.n, mk(n1)], dtype or np.float64, lambda i, j: s.at(i).at(j))
    elif isinstance(e, list):
        raise Unsupported('array of lists')
    else:
        r = Tab([s.n], dtype or kind_of(e), lambda i: s.at(i))
    return r


def cast(dt, src, v):
    from . import vals
    if np.dtype(dt).kind in 'fiub' and np.dtype(src).kind in 'fiub' and (np.dtype(dt).kind == 'b' or np.dtype(src).kind == 'b'):
        return vals.conv(dt, v)
    return _cast(dt, v)


def kind_of(e):
    return np.bool_ if isinstance(e, (bool, SymBool)) else np.int64 if intlike(e) else np.float64


def has_var(t, v):
    if z3.eq(t, v):
        return True
    return any(has_var(c, v) for c in t.children())


class Grid(Q.SymSeq):
    """the index tuples of an array of symbolic extents"""

    def __init__(self, dims):
        self.dims = dims
        n = 1
        for d in dims:
            n = n * d
        if len(dims) == 1:
            Q.SymSeq.__init__(self, n, lambda j: (mk(j),))
        else:
            Q.SymSeq.__init__(self, n, self._no)

    def _no(self, j):
        raise Unsupported('flat position in an index grid')

    def concrete(self):
        if len(self.dims) == 1:
            return Q.SymSeq.concrete(self)
        return None


class StoreOnly:
    """stands for an array a loop stores to, during one iteration"""

    def __init__(self, tab, own=None):
        self.tab, self.stores, self.own = tab, [], own
        self.shape, self.dtype = tab.shape, tab.dtype

    def __setitem__(self, idx, v):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) != len(self.shape) or not all(intlike(e) for e in idx):
            raise Unsupported('store of a slice')
        idx = tuple(self.tab.in_range(e, n) for e, n in zip(idx, self.shape))
        self.stores.append((idx, _cast(self.dtype, v)))

    def __getitem__(self, idx):
        """the element at the loop's own index, before it is stored to: no other iteration stores there"""
        if not isinstance(idx, tuple):
            idx = (idx,)
        if self.own is None or self.stores or len(idx) != len(self.own) or not all(intlike(e) and z3.eq(simp(term(e)), simp(j)) for e, j in zip(idx, self.own)):
            raise Unsupported('array read by the loop that stores to it')
        return self.tab.elem(*[ix(e) for e in idx])

    def __getattr__(self, n):
        raise Unsupported('array stored to by a symbolic loop is used otherwise (%s)' % n)

    def _no(self, *a):
        raise Unsupported('array read by the loop that stores to it')
    __len__ = __iter__ = __contains__ = __add__ = __radd__ = __eq__ = __bool__ = __mul__ = _no
    __hash__ = None


class GridCut:
    """loop over the indices of an array, or over a range, whose only effect is one store at its own index"""
    sym = True
    exited = False
    value = None

    def __init__(self, key, s):
        self.key, self.s = key, s
        self.dims = s.dims if isinstance(s, Grid) else [s.n]
        self.tuple = isinstance(s, Grid)

    def run(self, names, vals, mutated, body, stores=()):
        p = P.cur()
        if mutated:
            raise Unsupported('list built by a loop over an index grid')
        for x, v in zip(names, vals):
            if x in stores and not isinstance(v, Tab):
                raise Unsupported('store to %s (%s)' % (x, type(v).__name__))

        def once(js):
            st = [StoreOnly(v, js if self.tuple else None) if x in stores else Q.Poison() for x, v in zip(names, vals)]
            after = body(tuple(mk(simp(j)) for j in js) if self.tuple else self.s.at(js[0]), *st)
            eff = []
            for x, a, b in zip(names, st, after):
                if isinstance(a, StoreOnly):
                    if b is not a:
                        raise Unsupported('array rebound inside a symbolic loop')
                    if len(a.stores) != 1:
                        raise Unsupported('an iteration stores %d times' % len(a.stores))
                    idx, val = a.stores[0]
                    if len(idx) != len(js) or not all(z3.eq(simp(term(i)), simp(j)) for i, j in zip(idx, js)):
                        raise Unsupported('store at an index other than the loop\'s')
                    eff.append(val)
                else:
                    eff.append(None)
            return tuple(eff)

        def inside(js):
            return z3.And([z3.And(j >= 0, j < Q.T(d)) for j, d in zip(js, self.dims)])
        ks = [p.fresh('it') for _ in self.dims]
        p.solver.push()
        try:
            p.solver.add(inside(ks))
            outs = P.merge(lambda: once(ks))
        finally:
            p.solver.pop()
        if any(kind != 'return' for _, kind, _ in outs):
            if p.sub:
                raise Unsupported('nested symbolic loop that may raise')
            if p.choose([('normal', z3.BoolVal(True)), ('exit', inside(ks))]) == 'exit':
                p.ghost.setdefault('exits', []).append(ks[0])
                once(ks)
                raise P.Abort()

        uid = object()

        def at(js, k, old):
            q = P.cur()
            key = ('elem', id(uid), k) + tuple(simp(j).get_id() for j in js)
            if key not in q.divs:
                q.divs[key] = (at_(js, k, old), uid, [simp(j) for j in js])
            return q.divs[key][0]

        def at_(js, k, old):
            outs = P.merge(lambda: once(list(js)))
            for br, kind, v in outs:
                if kind != 'return':        # the loop ran to its end
                    P.cur().assume(z3.Implies(inside(js), z3.Not(br)))
            outs = [(br, v) for br, kind, v in outs if kind == 'return']
            if not outs:
                raise P.Abort()
            r = outs[-1][1][k]
            for br, v in reversed(outs[:-1]):
                r = comb(br, v[k], r)
            c = simp(inside(js))
            if z3.is_true(c):
                return r
            q = P.cur()
            if q.solver.check(z3.Not(c)) == z3.unsat:
                return r
            return comb(c, r, old(*js))
        new = []
        for k, (x, v) in enumerate(zip(names, vals)):
            if x in stores:
                new.append(Tab(v.shape, v.dtype, lambda *js, k=k, old=v.elem: at(js, k, old)))
            else:
                new.append(Q.Poison())
        return tuple(new)


def comb(c, x, y):
    if isinstance(x, Real) or isinstance(y, Real) or isinstance(x, float) or isinstance(y, float):
        return Real(z3.If(c, rterm(x), rterm(y)))
    return Q.combine(c, x, y)


def _methods():
    from . import vals
    for n in ('sum', 'prod', 'mean', 'all', 'any', 'argmax', 'cumsum', 'swapaxes', 'squeeze', 'repeat', 'take', 'reshape'):
        setattr(Tab, n, (lambda f: lambda self, *a, **k: f(self, *a, **k))(vals.TABLE[n]))
    Tab.ravel = lambda self, *a, **k: self.seen(vals.reshaped(self, [vals.prod(self.shape)]))
    Tab.flatten = lambda self, *a, **k: vals.reshaped(self, [vals.prod(self.shape)])
    Tab.item = lambda self, *a: vals.reshaped(self, [1]).elem(z3.IntVal(0))
    Tab.clip = lambda self, lo=None, hi=None, **k: vals.t_clip(self, lo, hi)
    Tab.__invert__ = lambda self: vals.elementwise('invert', (self,), np.invert)
    Tab.__neg__ = lambda self: vals.elementwise('negative', (self,), np.negative)
    Tab.__abs__ = lambda self: vals.elementwise('abs', (self,), np.abs)


_methods()
