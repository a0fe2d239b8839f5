"""Path exploration by deterministic re-execution.

A run of the real code is driven by a prefix of decisions; a symbolic condition beyond the prefix
is decided by asking the solver which sides are feasible (unknown counts as feasible) and the other
side is queued.  All paths together cover every input satisfying the preconditions."""
import time
import z3

MAX_PATHS = 8000
FEAS_MS = 4000
CONC_MAX = 24


class Unsupported(BaseException):
    """the construct is outside the engine's reach (never a verdict)"""


class Gone(Unsupported):
    """the contract is about an internal form the code no longer has"""


class TimeUp(Unsupported):
    """the time limit of one contract is used up (never reported as a failed obligation)"""


class Abort(BaseException):
    """path ended inside the engine (infeasible)"""


def quantified(t):
    while z3.is_implies(t):
        t = t.arg(1)
    return z3.is_quantifier(t)


_cur = None


def cur():
    if _cur is None:
        raise Unsupported('symbolic value used outside a run')
    return _cur


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.functions = set()
        self.unknown_feas = 0


STATS = Stats()


class Path:
    def __init__(self, prefix, solver_timeout=FEAS_MS):
        self.prefix = prefix
        self.k = 0
        self.conds = []            # path condition, including preconditions
        self.n_req = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', solver_timeout)
        self.queue = []            # alternative prefixes discovered
        self.taken = []
        self.divs = {}
        self.ndiv = 0
        self.fresh_n = 0
        self.ghost = {}
        self.cache = {}
        self.branch = []           # conditions chosen (as opposed to assumed facts)
        self.facts = []
        self.sub = False
        self.nmerge = 0
        self.folds = []            # (kind, sequence, result term)
        self.loops = []            # cut loops passed without leaving: instantiated at the goals' indices

    # ---- preconditions and assumptions
    def assume(self, t):
        if z3.is_true(t):
            return
        self.conds.append(t)
        self.facts.append((len(self.branch), t))
        if not quantified(t):           # used for the goals only: feasibility may be over-approximated
            self.solver.add(t)

    def take(self, t):
        if z3.is_true(t):
            return
        self.conds.append(t)
        self.branch.append(t)
        self.solver.add(t)

    def feasible(self, t):
        STATS.queries += 1
        t0 = time.time()
        r = self.solver.check(t)
        STATS.solver_s += time.time() - t0
        if r == z3.unknown:
            STATS.unknown_feas += 1
        return r != z3.unsat

    def _next(self, options):
        """options: list of (value, condition); pick by prefix or by feasibility"""
        if self.k < len(self.prefix):
            v = self.prefix[self.k]
            self.k += 1
            self.taken.append(v)
            for val, c in options:
                if val == v:
                    self.take(c)
                    return v
            raise Unsupported('non-deterministic re-execution')
        ok = [(v, c) for v, c in options if self.feasible(c)]
        if not ok:
            raise Abort()
        for v, c in ok[1:]:
            self.queue.append(self.taken + [v])
        v, c = ok[0]
        self.k += 1
        self.taken.append(v)
        self.take(c)
        return v

    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        key = t.get_id()
        if key in self.cache:
            return self.cache[key][0]
        nt = z3.simplify(z3.Not(t))
        v = self._next([(True, t), (False, nt)])
        self.cache[key] = (v, t)
        self.cache[nt.get_id()] = (not v, nt)
        return v

    def choose(self, options):
        """fork over labelled alternatives with their conditions"""
        return self._next(options)

    def values_of(self, t, most=None):
        """all values t can take, or None when there are too many"""
        most = CONC_MAX if most is None else most
        s, vals = self.solver, []
        s.push()
        try:
            if s.check(t > 10 ** 6) == z3.sat:
                return None
            while True:
                STATS.queries += 1
                r = s.check()
                if r == z3.unsat:
                    return vals
                if r == z3.unknown or len(vals) >= most:
                    return None
                v = s.model().eval(t, model_completion=True).as_long()
                vals.append(v)
                s.add(t != v)
        finally:
            s.pop()

    def concretise(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if self.k < len(self.prefix):
            v = self.prefix[self.k]
            self.k += 1
            self.taken.append(v)
            self.take(t == v)
            return v
        vals = self.values_of(t)
        if vals is None:
            raise Unsupported('a symbolic integer is used where the code needs a concrete one (%s)' % str(t)[:80])
        if not vals:
            raise Abort()
        vals.sort()
        for v in vals[1:]:
            self.queue.append(self.taken + [v])
        self.k += 1
        self.taken.append(vals[0])
        self.take(t == vals[0])
        return vals[0]

    def fresh(self, name='f', sort=None):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        return z3.Int(n) if sort is None else z3.Const(n, sort)

    def divide(self, a, b):
        """a // b for b > 0 symbolic: quotient q with q*b <= a < q*b + b"""
        key = (a.get_id(), b.get_id())
        if key in self.divs:
            return self.divs[key][0]
        self.ndiv += 1
        q = z3.Int('quot!%d' % self.ndiv)
        self.divs[key] = (q, a, b)
        self.assume(q * b <= a)
        self.assume(a < q * b + b)
        self.assume(z3.Implies(a >= 0, q >= 0))
        self.assume(z3.Implies(a < 0, q < 0))
        return q


def merge(fn):
    """run fn under every decision sequence without forking the current path; returns
    [(condition, 'return' | 'raise', value)] and keeps the facts found on the way"""
    global _cur
    par = cur()
    key = None
    if not par.sub:
        par.nmerge += 1
        key = (tuple(par.taken), par.nmerge)
        hit = _merges.get(key)
        if hit is not None:
            outs, facts, par.ndiv, par.fresh_n, nf, nl = hit
            par.folds.extend(nf)
            par.loops.extend(nl)
            for f in facts:
                par.assume(f)
            return outs
    todo, outs, n, allf = [[]], [], 0, []
    f0, l0 = len(par.folds), len(par.loops)
    while todo:
        prefix = todo.pop()
        n += 1
        if n > 200:
            raise Unsupported('too many paths in a loop body')
        sub = Path(prefix)
        sub.sub = True
        sub.solver = par.solver
        sub.conds = list(par.conds)
        sub.divs = dict(par.divs)
        sub.cache = dict(par.cache)
        sub.ndiv, sub.fresh_n, sub.folds, sub.loops = par.ndiv, par.fresh_n, par.folds, par.loops
        par.solver.push()
        _cur = sub
        out = None
        try:
            try:
                out = ('return', fn())
            except Abort:
                pass
            except LoopReturn as e:
                out = ('exit', e.value)
            except RecursionError:
                raise Unsupported('recursion')
            except Exception as e:
                out = ('raise', e)
        finally:
            _cur = par
            par.solver.pop()
            par.ndiv, par.fresh_n = sub.ndiv, sub.fresh_n
        br = z3.And(*sub.branch) if sub.branch else z3.BoolVal(True)
        if out is not None:
            for nb, f in sub.facts:      # a fact holds under the decisions made before it
                f = f if not nb else z3.Implies(z3.And(*sub.branch[:nb]) if nb > 1 else sub.branch[0], f)
                allf.append(f)
                par.assume(f)
            outs.append((br,) + out)
        todo.extend(sub.queue)
    if key is not None:
        _merges[key] = (outs, allf, par.ndiv, par.fresh_n, par.folds[f0:], par.loops[l0:])
    return outs


_merges = {}      # results of merge() at the same point of a re-execution


class LoopReturn(BaseException):
    """`return` inside a cut loop"""

    def __init__(self, value):
        self.value = value


def explore(fn, on_path, deadline=None):
    """run fn under every decision sequence; on_path(path, outcome) with outcome ('return', v) | ('raise', e)"""
    global _cur
    todo = [[]]
    n = 0
    _merges.clear()
    while todo:
        prefix = todo.pop()
        n += 1
        if n > MAX_PATHS:
            raise Unsupported('more than %d paths' % MAX_PATHS)
        if deadline and time.time() > deadline:
            raise TimeUp('time limit')
        p = Path(prefix)
        _cur = p
        try:
            try:
                out = ('return', fn())
            except Abort:
                out = None
            except Unsupported:
                raise
            except RecursionError:
                raise Unsupported('recursion')
            except Exception as e:
                out = ('raise', e)
            STATS.paths += 1
            if out is not None:
                on_path(p, out)
        finally:
            _cur = None
        todo.extend(p.queue)
    return n
