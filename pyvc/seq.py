"""Sequences of symbolic length (shapes of arbitrary rank) and the loop rule over them.

A loop over such a sequence is decided by one arbitrary iteration: the body is executed at a fresh index k from
a generalised state.  Either some iteration leaves the loop (raises / returns: explored as its own path with k
as witness) or none does; then lists the body appends to become the map of the body over the sequence (the body is
executed again at every index the rest of the run or a verification condition looks at), multiplicative and
additive accumulators become folds, and everything else assigned in the body becomes arbitrary."""
import z3
from . import path as P
from .path import Unsupported, Abort, LoopReturn
from .values import SymInt, SymBool, Rat, Real, is_sym, mk, mkb, simp, term, bterm, select, intlike, cmp


def T(x):
    """z3 Int term of an index / length"""
    return x if z3.is_expr(x) else term(x)


def isseq(x):
    return isinstance(x, SymSeq)


class SymSeq:
    symbolic = False

    def __init__(self, n, f):
        self.n, self.f = n, f

    # -- element access
    def at(self, i):
        """element at a z3/Python index known to be in range"""
        return self.f(simp(T(i)))

    def copy(self):
        return SymSeq(self.n, self.f)

    def concrete(self):
        """Python list when the length takes one / few values (forks), else None"""
        n = self.n
        if is_sym(n):
            p = P.cur()
            t = z3.simplify(n.t)
            if p.k < len(p.prefix) and not p.sub:
                v = p.prefix[p.k]
                if v == 'long':
                    p.k += 1
                    p.taken.append(v)
                    return None
            vals = p.values_of(t, 8)
            if vals is None:
                if not p.sub:
                    p.k += 1
                    p.taken.append('long')
                return None
            n = p.concretise(t)
        return [self.at(i) for i in range(n)]

    def __iter__(self):
        c = self.concrete()
        if c is None:
            raise Unsupported('iteration over a sequence of symbolic length')
        return iter(c)

    def __len__(self):
        if is_sym(self.n):
            return P.cur().concretise(self.n.t)
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def index_in(self, i):
        """normalised index; raises IndexError on the paths where it is out of range"""
        if is_sym(i) or isinstance(i, int):
            if bool(i < 0):
                i = i + self.n
            if bool((i < 0)) or bool(i >= self.n):
                raise IndexError('list index out of range')
            return i
        if hasattr(i, 'dtype'):
            return self.index_in(int(i))
        raise Unsupported('index %r' % type(i))

    def bounds(self, s):
        """start, length of a step-1 slice"""
        def clampv(v, dflt):
            if v is None:
                return dflt
            v = int(v) if hasattr(v, 'dtype') else v
            neg = v < 0
            v = select(neg.t, v + self.n, v) if is_sym(neg) else (v + self.n if neg else v)
            lo = v < 0
            v = select(lo.t, 0, v) if is_sym(lo) else (0 if lo else v)
            hi = v > self.n
            return select(hi.t, self.n, v) if is_sym(hi) else (self.n if hi else v)
        a, b = clampv(s.start, 0), clampv(s.stop, self.n)
        m = b - a
        c = m < 0
        m = select(c.t, 0, m) if is_sym(c) else (0 if c else m)
        return a, m

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is None or i.step == 1:
                a, m = self.bounds(i)
                f, ta = self.f, T(a)
                return SymSeq(m, lambda j: f(simp(ta + j)))
            if i.step == -1 and i.start is None and i.stop is None:
                f, tn = self.f, T(self.n)
                return SymSeq(self.n, lambda j: f(simp(tn - 1 - j)))
            raise Unsupported('slice with a step')
        return self.at(self.index_in(i))

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported('slice assignment')
        i = T(self.index_in(i))
        f = self.f
        self.f = lambda j: pick(simp(j == i), lambda: v, lambda: f(j))

    # -- building
    def append(self, v):
        f, n = self.f, T(self.n)
        self.f = lambda j: pick(simp(j == n), lambda: v, lambda: f(j))
        self.n = self.n + 1

    def extend(self, o):
        r = self + seq(o)
        self.n, self.f = r.n, r.f

    def insert(self, i, v):
        neg = i < 0
        i = select(neg.t, i + self.n, i) if is_sym(neg) else (i + self.n if neg else i)
        if bool(i < 0) or bool(i > self.n):
            raise Unsupported('insert outside the list')
        f, ti = self.f, T(i)
        self.f = lambda j: pick(simp(j == ti), lambda: v, lambda: pick(simp(j < ti), lambda: f(j), lambda: f(simp(j - 1))))
        self.n = self.n + 1

    def pop(self, i=-1):
        i = self.index_in(i)
        r = self.at(i)
        f, ti = self.f, T(i)
        self.f = lambda j: pick(simp(j < ti), lambda: f(j), lambda: f(simp(j + 1)))
        self.n = self.n - 1
        return r

    def __add__(self, o):
        if not isinstance(o, (list, tuple, SymSeq)):
            return NotImplemented
        o = seq(o)
        f, g, n = self.f, o.f, T(self.n)
        if z3.is_int_value(simp(n)) and simp(n).as_long() == 0:
            return o.copy()
        return SymSeq(self.n + o.n, lambda j: pick(simp(j < n), lambda: f(j), lambda: g(simp(j - n))))

    def __radd__(self, o):
        return seq(o) + self

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        raise Unsupported('repeating a sequence of symbolic length')
    __rmul__ = __mul__

    # -- questions
    def contains(self, x):
        c = self.concrete()
        if c is not None:
            for e in c:
                if e == x:
                    return True
            return False
        return exists(self, lambda e: e == x)

    __contains__ = contains

    def count(self, x):
        raise Unsupported('count')

    def index(self, x):
        raise Unsupported('index')

    def __eq__(self, o):
        if not isinstance(o, (list, tuple, SymSeq)):
            return False
        o = seq(o)
        if not bool(self.n == o.n):
            return False
        return not exists(zip_seq([self, o]), lambda e: e[0] != e[1])

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def tolist(self):
        return self

    def __repr__(self):
        return '<sequence of length %s>' % (self.n,)


def pick(c, a, b):
    """element under a condition on the index"""
    if z3.is_true(c):
        return a()
    if z3.is_false(c):
        return b()
    p = P.cur()
    if p.solver.check(z3.Not(c)) == z3.unsat:
        return a()
    if p.solver.check(c) == z3.unsat:
        return b()
    try:
        x = a()
    except Abort:               # no element there: the index is never in that part
        return b()
    try:
        y = b()
    except Abort:
        return x
    return combine(c, x, y)


def combine(c, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(combine(c, p, q) for p, q in zip(x, y))
    if (intlike(x) or isinstance(x, (Rat, Real))) and (intlike(y) or isinstance(y, (Rat, Real))):
        return select(c, x, y)
    if isinstance(x, str) and isinstance(y, str) and x == y:
        return x
    if x is y:
        return x
    return x if P.cur().decide(c) else y


def seq(x):
    if isinstance(x, SymSeq):
        return x
    xs = list(x)

    def f(j):
        if z3.is_int_value(j):
            return xs[j.as_long()]
        if not xs:
            raise Abort()
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = combine(simp(j == k), xs[k], r)
        return r
    return SymSeq(len(xs), f)


class SymRange(SymSeq):
    def __init__(self, lo, hi):
        n = hi - lo
        c = n < 0
        n = select(c.t, 0, n) if is_sym(c) else (0 if c else n)
        tl = T(lo)
        SymSeq.__init__(self, n, lambda j: mk(simp(tl + j)))


def replicate(xs, n):
    """list * symbolic count"""
    p = P.cur()
    if len(xs) == 1:
        v = xs[0]
        c = n < 0
        n = select(c.t, 0, n) if is_sym(c) else n
        if is_sym(n):
            return SymSeq(n, lambda j: v)
    return type(xs)(xs) * p.concretise(n.t)


def tag(a, dt):
    return a


def exists(s, pred):
    """fork: some index satisfies pred (with a fresh witness) / none does (recorded for the goals)"""
    p = P.cur()
    if p.sub:
        raise Unsupported('existence question inside a loop body')
    k = p.fresh('ex')
    n = T(s.n)
    if p.choose([(False, z3.BoolVal(True)), (True, z3.And(k >= 0, k < n))]):
        if not bool(pred(s.at(k))):
            raise Abort()
        p.ghost.setdefault('exits', []).append(k)
        return True

    def inst(j):
        for br, kind, v in P.merge(lambda: pred(s.at(j))):
            if kind == 'return':
                p.assume(z3.Implies(z3.And(j >= 0, j < n, br), z3.Not(bterm(v))))
    p.loops.append((n, inst))
    return False


# ------------------------------------------------------------------ folds
def fold(kind, s):
    """the product / sum of a sequence, as a term"""
    c = None
    if not is_sym(s.n):
        c = [s.at(i) for i in range(s.n)]
        r = 1 if kind == 'prod' else 0
        for e in c:
            r = r * e if kind == 'prod' else r + e
        return r
    p = P.cur()
    v = z3.Int('%s!%d' % (kind, len(p.folds)))
    p.folds.append((kind, s, v))
    p.assume(z3.Implies(T(s.n) <= 0, v == (1 if kind == 'prod' else 0)))
    return SymInt(v)


def fold_prod(x, s):
    return s * fold('prod', x)


def fold_sum(x, s):
    return s + fold('sum', x)


def unify_folds(p, prove):
    """equal folds of pointwise equal sequences; prove(conds, goal) is the solver"""
    done = p.ghost.setdefault('unified', set())
    i = 0
    while i < len(p.folds):
        if ('n', i) not in done:
            done.add(('n', i))
            kind, a, u = p.folds[i]
            ns = p.values_of(T(a.n), 1)
            if ns is not None and len(ns) == 1 and 0 <= ns[0] <= 12:
                try:
                    p.assume(u == T(fold(kind, SymSeq(ns[0], a.f))))
                except Abort:
                    pass
        for j in range(i):
            if (i, j) in done:
                continue
            done.add((i, j))
            (k1, a, u), (k2, b, w) = p.folds[i], p.folds[j]
            if k1 != k2:
                continue
            if not prove([], T(a.n) == T(b.n)):
                continue
            k = p.fresh('fi')
            rng = [k >= 0, k < T(a.n)]
            p.solver.push()
            try:
                p.solver.add(*rng)
                outs = P.merge(lambda: a.at(k) == b.at(k))
            finally:
                p.solver.pop()
            if all(kind == 'return' and prove(rng + [br], bterm(v)) for br, kind, v in outs) and outs:
                p.assume(u == w)
        i += 1


# ------------------------------------------------------------------ combinators
def zip_seq(a):
    ss = [seq(x) for x in a]
    n = ss[0].n
    for s in ss[1:]:
        c = s.n < n
        n = select(c.t, s.n, n) if is_sym(c) else (s.n if c else n)
    return SymSeq(n, lambda j: tuple(s.f(j) for s in ss))


def enum_seq(x, start):
    return SymSeq(x.n, lambda j: (mk(simp(j + T(start))), x.f(j)))


def merged_value(outs):
    vals = [(br, v) for br, kind, v in outs if kind == 'return']
    if not vals:
        raise Abort()
    r = vals[-1][1]
    for br, v in reversed(vals[:-1]):
        r = combine(br, v, r)
    return r


def map_seq(f, x):
    """[f(e) for e in x]; f must not fail"""
    c = x.concrete()
    if c is not None:
        return [f(e) for e in c]
    cut = LoopCut('comprehension', x)
    acc = cut.run(('_r',), ([],), ('_r',), lambda e, r: (r.append(f(e)), (r,))[1])
    return acc[0]


class AppendOnly:
    """stands for a list built up by a loop, during one iteration"""

    def __init__(self):
        self.items = []

    def append(self, v):
        self.items.append(v)

    def extend(self, vs):
        if isinstance(vs, SymSeq):
            raise Unsupported('extend with a symbolic sequence inside a symbolic loop')
        self.items.extend(vs)

    def __getattr__(self, n):
        raise Unsupported('list used other than by append inside a symbolic loop (%s)' % n)

    def _no(self, *a):
        raise Unsupported('list read inside a symbolic loop')
    __getitem__ = __setitem__ = __len__ = __iter__ = __contains__ = __add__ = __radd__ = __eq__ = __bool__ = _no
    __hash__ = None


class Poison:
    """value of a loop-local variable outside the iteration that set it"""

    def _no(self, *a, **k):
        raise Unsupported('variable of a symbolic loop used outside it')

    def __getattr__(self, n):
        raise Unsupported('variable of a symbolic loop used outside it')
    __getitem__ = __setitem__ = __len__ = __iter__ = __contains__ = __add__ = __radd__ = __eq__ = __bool__ = __call__ = _no
    __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __index__ = __int__ = _no
    __hash__ = None


def isnum(v):
    return type(v).__name__ not in ('Poison', '_Unbound', 'AppendOnly') and intlike(v) and not isinstance(v, (bool, SymBool))


def refuted(p, *cs):
    s = z3.Solver()
    s.set('timeout', 8000)
    s.add(*p.solver.assertions())
    s.add(*cs)
    return s.check() == z3.unsat


class LoopCut:
    sym = True

    def __init__(self, key, s):
        self.key, self.s = key, s
        self.exited = False
        self.value = None

    def run(self, names, vals, mutated, body, stores=()):
        if stores:
            from .tab import GridCut
            return GridCut(self.key, self.s).run(names, vals, mutated, body, stores)
        from . import stream
        if any(stream.isbuf(v) for v in vals):
            return stream.cut(self.key, self.s, names, vals, mutated, body)
        p = P.cur()
        s, n = self.s, T(self.s.n)
        lists = {x for x, v in zip(names, vals) if x in mutated}
        for x, v in zip(names, vals):
            if x in lists and not isinstance(v, (list, SymSeq)):
                raise Unsupported('loop updates %s (%s)' % (x, type(v).__name__))
        havoc = {x: p.fresh('st') for x, v in zip(names, vals) if x not in lists and isnum(v)}

        def state():
            out = []
            for x, v in zip(names, vals):
                if x in lists:
                    out.append(AppendOnly())
                elif isnum(v):
                    out.append(SymInt(havoc[x]))
                else:
                    out.append(Poison())
            return out
        k = p.fresh('it')
        rng = z3.And(k >= 0, k < n)

        def once(j, pick_state=None):
            st = state()
            after = body(s.at(j), *st)
            return st, after

        def sig(st, after):
            """effects of one iteration: appended items, scalar updates"""
            eff = []
            for x, a, b in zip(names, st, after):
                if isinstance(a, AppendOnly):
                    if b is not a:
                        raise Unsupported('list %s rebound inside a symbolic loop' % x)
                    eff.append(('list', tuple(a.items)))
                elif isnum(b):
                    eff.append(('int', b))
                else:
                    eff.append(('other', b))
            return tuple(eff)

        def iterate(j):
            """effects at index j, merged over the body's branches; iterations that would leave are excluded"""
            p2 = P.cur()
            rng = z3.And(j >= 0, j < n)
            outs = P.merge(lambda: sig(*once(j)))
            for br, kind, v in outs:
                if kind != 'return':
                    p2.assume(z3.Implies(rng, z3.Not(br)))
            return [(br, v) for br, kind, v in outs if kind == 'return']
        p.solver.push()
        try:
            p.solver.add(rng)
            outs = P.merge(lambda: sig(*once(k)))
        finally:
            p.solver.pop()
        rets = [(br, v) for br, kind, v in outs if kind == 'return']
        leaves = any(kind != 'return' for _, kind, _ in outs)
        if leaves and p.sub:        # spend more on showing that no iteration leaves
            leaves = any(kind != 'return' and not refuted(p, rng, br) for br, kind, _ in outs)
        if leaves:
            if p.sub:
                raise Unsupported('nested symbolic loop that may leave')
            if p.choose([('normal', z3.BoolVal(True)), ('exit', rng)]) == 'exit':
                p.ghost.setdefault('exits', []).append(k)
                try:
                    body(s.at(k), *state())
                except LoopReturn as e:
                    self.exited, self.value = True, e.value
                    return tuple(vals)
                raise Abort()
            p.loops.append((n, lambda j: iterate(j)))
        new = []
        for idx, (x, v) in enumerate(zip(names, vals)):
            if x in lists:
                cs = {len(r[idx][1]) for _, r in rets}
                if not rets:
                    new.append(v)
                    continue
                if len(cs) != 1:
                    raise Unsupported('loop appends a varying number of elements to %s' % x)
                c = cs.pop()
                if c == 0:
                    new.append(v)
                    continue

                def elem(j, idx=idx, c=c):
                    if c == 1:
                        q, r = j, 0
                    else:
                        r = z3.simplify(j % c)
                        if not z3.is_int_value(r):
                            raise Unsupported('several appends per iteration')
                        q, r = simp((j - r) / c), r.as_long()
                    es = iterate(q)
                    if not es:
                        raise Abort()
                    out = es[-1][1][idx][1][r]
                    for br, e in reversed(es[:-1]):
                        out = combine(br, e[idx][1][r], out)
                    return out
                ext = SymSeq(self.s.n * c, elem)
                new.append(ext if isinstance(v, list) and not v else seq(v) + ext)
                continue
            kinds = {r[idx][0] for _, r in rets}
            if not rets or (x in havoc and all(r[idx][0] == 'int' and z3.eq(simp(T(r[idx][1])), havoc[x]) for _, r in rets)):
                new.append(v)
                continue
            if kinds == {'int'} and x in havoc:
                new.append(self.fold(p, x, v, idx, rets, havoc[x], rng, iterate))
                continue
            if kinds == {'int'}:
                new.append(SymInt(p.fresh('loc')) if True else None)
                continue
            new.append(Poison())
        return tuple(new)

    def fold(self, p, x, v, idx, rets, a, rng, iterate):
        def proves(extra, g):
            sv = z3.Solver()
            sv.set('timeout', 4000)
            sv.add(*p.conds)
            sv.add(rng, *extra)
            sv.add(z3.Not(g))
            return sv.check() == z3.unsat
        for kind, unit in (('prod', 1), ('sum', 0)):
            ok = True
            for br, r in rets:
                t = T(r[idx][1])
                f = z3.simplify(z3.substitute(t, (a, z3.IntVal(unit))))
                g = (t == a * f) if kind == 'prod' else (t == a + f)
                g = z3.simplify(g, som=True)
                if not z3.is_true(g) and not proves([br], g):
                    ok = False
                    break
            if ok:
                def elem(j):
                    es = iterate(j)
                    if not es:
                        raise Abort()
                    out = None
                    for br, e in reversed(es):
                        f = mk(simp(z3.substitute(T(e[idx][1]), (a, z3.IntVal(unit)))))
                        out = f if out is None else combine(br, f, out)
                    return out
                s = SymSeq(self.s.n, elem)
                return fold_prod(s, v) if kind == 'prod' else fold_sum(s, v)
        return SymInt(p.fresh('acc'))


# ------------------------------------------------------------------ contracts over sequences
class Exists:
    """some index below n satisfies pred (used as a rejection condition)"""

    def __init__(self, n, pred):
        self.n, self.pred = n, pred


def model_value(m, t):
    if isinstance(t, tuple) and t[0] == 'seq':
        n = m.eval(t[2], model_completion=True).as_long()
        if not 0 <= n <= 64:
            return None
        return [m.eval(z3.Select(t[1], i), model_completion=True).as_long() for i in range(n)]
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return str(v)


def symseq(p, name, lo, hi=None):
    n, arr = z3.Int(name + '#'), z3.Array(name, z3.IntSort(), z3.IntSort())
    p.assume(n >= 0)

    def f(j):
        e = z3.Select(arr, j)
        q = P.cur()
        rng = z3.And(j >= 0, j < n)
        if lo is not None:
            q.assume(z3.Implies(rng, e >= lo))
        return SymInt(e)
    return SymSeq(SymInt(n), f), ('seq', arr, n)


def bcast(seqs):
    """(shape, reject) of the broadcast rule for symbolic-rank shapes: aligned at the end, extents equal or 1"""
    from spec import shapes as S
    from spec.sym import Max, Not
    ss = [seq(s) for s in seqs]
    n = ss[0].n
    for s in ss[1:]:
        n = Max(n, s.n)
    tn = T(n)

    def dims(j):
        out = []
        for s in ss:
            o = simp(j - (tn - T(s.n)))
            inside = simp(o >= 0)
            out.append(pick(inside, lambda: s.f(o), lambda: 1))
        return out
    return SymSeq(n, lambda j: S.bcast_dims(dims(j))[0]), Exists(n, lambda j: Not(S.bcast_dims(dims(j))[1]))


def count(s):
    """elements of a tensor as the tool counts them (rank 0 counts as none)"""
    s = seq(s)
    c = s.n > 0
    v = fold('prod', s)
    return select(c.t, v, 0) if is_sym(c) else (v if c else 0)


def equal_goals(exp, got, at, goals):
    """verification conditions for got == exp: lengths, then one arbitrary index"""
    if not isinstance(got, (list, tuple, SymSeq)) or not isinstance(exp, (list, tuple, SymSeq)):
        yield at + ' is a list', False
        return
    e, g = seq(exp), seq(got)
    p = P.cur()
    yield at + ' length', T(e.n) == T(g.n)
    k = p.fresh('at')
    n = T(e.n)
    if p.choose([(False, z3.BoolVal(True)), (True, z3.And(k >= 0, k < n, k < T(g.n)))]):
        instantiate(p, k)
        yield from goals(e.at(k), g.at(k), at + '[i]')
        raise Abort()


def instantiate(p, k):
    """facts of the loops passed on this path, at index k"""
    for n, inst in list(p.loops):
        inst(k)


def reject_goals(rej, returned):
    """conditions for: the run returned iff not rej"""
    p = P.cur()
    if not isinstance(rej, Exists):
        yield ('excluded inputs are rejected', z3.Not(bterm(rej))) if returned else ('admissible inputs are accepted', bterm(rej))
        return
    n = T(rej.n)
    if returned:
        k = p.fresh('rj')
        if p.choose([(False, z3.BoolVal(True)), (True, z3.And(k >= 0, k < n))]):
            instantiate(p, k)
            yield 'excluded inputs are rejected', z3.Not(bterm(rej.pred(k)))
            raise Abort()
        return
    ws = p.ghost.get('exits', [])
    yield 'admissible inputs are accepted', z3.Or([z3.And(w >= 0, w < n, bterm(rej.pred(w))) for w in ws] + [z3.BoolVal(False)])
