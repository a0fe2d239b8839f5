"""Discharge the contracts of one property: python -m pyvc.prove C02 out.json

For every contract and every path of the real code: the postcondition is a verification condition handed to z3
(cvc5 as second opinion when z3 gives up).  Refuted conditions come back with the model's input values."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402
from pyvc import path as P  # noqa: E402
from pyvc.path import Unsupported, explore, STATS  # noqa: E402
from pyvc import values as V  # noqa: E402
from pyvc import seq as Q  # noqa: E402
from pyvc import contract as K  # noqa: E402
from pyvc import stream as ST  # noqa: E402

PROVE_MS = int(os.environ.get('VERIF_PROVE_MS', '8000'))


class Obl:
    """one entry's result"""

    def __init__(self, name):
        self.name = name
        self.vcs = self.discharged = self.paths = self.returns = 0
        self.status = 'discharged'          # discharged | refuted | unknown | unsupported
        self.detail = ''
        self.model = None
        self.failed = None
        self.solver_s = 0.0
        self.backends = {}
        self.inputs = lambda: []


def goals(exp, got, at=''):
    """list of (label, term or bool) whose conjunction says got == exp"""
    if isinstance(exp, ST.Bits):
        if not isinstance(got, (ST.Bits, ST.Stream)):
            yield at + ' is a byte stream', False
            return
        yield from ST.compare(exp.items, got.items, at)
        return
    if isinstance(exp, Q.SymSeq) or isinstance(got, Q.SymSeq):
        yield from Q.equal_goals(exp, got, at, goals)
        return
    if isinstance(exp, (list, tuple)):
        if not isinstance(got, (list, tuple)):
            yield at + ' is a list', False
            return
        if len(exp) != len(got):
            yield '%s has %d entries (got %d)' % (at, len(exp), len(got)), False
            return
        for k, (e, g) in enumerate(zip(exp, got)):
            yield from goals(e, g, '%s[%d]' % (at, k))
        return
    if isinstance(exp, dict):
        if not isinstance(got, dict) or set(exp) != set(got):
            yield at + ' keys', False
            return
        for k in exp:
            yield from goals(exp[k], got[k], (at + '.' if at else '') + k)
        return
    if V.is_sym(exp) or V.is_sym(got):
        if exp is None or got is None or isinstance(exp, str) or isinstance(got, str):
            yield at, False
            return
        if isinstance(exp, (bool, V.SymBool)) and isinstance(got, (bool, V.SymBool)):
            yield at, V.bterm(exp) == V.bterm(got)
            return
        if not (V.numeric(exp) or isinstance(exp, V.Rat)) or not (V.numeric(got) or isinstance(got, V.Rat)):
            yield at, False
            return
        r = exp == got
        yield at, V.bterm(r)
        return
    yield at, K.is_match(exp, got) == ''


def cvc5_unsat(conds, goal):
    """second opinion: True when cvc5 proves conds => goal"""
    try:
        import cvc5
        s = z3.Solver()
        for c in conds:
            s.add(c)
        s.add(z3.Not(goal))
        smt = s.to_smt2()
        tm = cvc5.TermManager()
        sv = cvc5.Solver(tm)
        sv.setOption('tlimit-per', '8000')
        sv.setLogic('ALL')
        pr = cvc5.InputParser(sv)
        pr.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, 'vc')
        sm = pr.getSymbolManager()
        res = None
        while True:
            cmd = pr.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(sv, sm)
            if 'unsat' in str(out):
                res = True
        return bool(res)
    except Exception:
        return False


def solve(conds, t):
    s = z3.Solver()
    s.set('timeout', PROVE_MS)
    s.add(*conds)
    s.add(z3.Not(t))
    STATS.queries += 1
    return s.check(), s


PORTFOLIO = [{'arith.solver': 2}, {'random_seed': 7}, {'arith.nl.tangents': False}, {'random_seed': 23}, {'arith.solver': 2, 'random_seed': 5}]


def portfolio(conds, t):
    """other settings of the solver, each in a fresh context: True when one of them proves conds => t"""
    for opts in PORTFOLIO:
        c = z3.Context()
        s = z3.Solver(ctx=c)
        s.set('timeout', PROVE_MS // 2)
        for k, x in opts.items():
            s.set(k, x)
        for g in conds:
            s.add(g.translate(c))
        s.add(z3.Not(t).translate(c))
        STATS.queries += 1
        if s.check() == z3.unsat:
            return True
    return False


_fresh = {}


def fresh_consts(t):
    """the engine's fresh constants (name!k) in a term"""
    k = t.get_id()
    hit = _fresh.get(k)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    seen, out, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name():
            out.add(x.decl().name())
        else:
            todo.extend(x.children())
    _fresh[k] = (t, out)
    return out


def relevant(conds, t):
    """hypotheses connected with the goal through fresh constants (dropping the others is sound)"""
    want = set(fresh_consts(t))
    seen, left, keep = set(), [], []
    for c in conds:
        if c.get_id() in seen:
            continue
        seen.add(c.get_id())
        fc = fresh_consts(c)
        if any(n.startswith(('it!', 'row!')) and n not in want for n in fc):
            continue                # about some other iteration
        (left if fc else keep).append(c)
    grown = True
    while grown:
        grown, rest = False, []
        for c in left:
            if fresh_consts(c) & want:
                keep.append(c)
                want |= fresh_consts(c)
                grown = True
            else:
                rest.append(c)
        left = rest
    return keep


def check_goal(p, t, o):
    """'yes' | 'no' (with o.model) | 'unknown'"""
    if isinstance(t, bool):
        t = z3.BoolVal(t)
    t = z3.simplify(t)
    if z3.is_true(t):
        o.backends['simplify'] = o.backends.get('simplify', 0) + 1
        return 'yes'
    t0 = time.time()
    few = relevant(p.conds, t)
    r = z3.unknown
    if len(few) < len(p.conds) * .8:
        r, s = solve(few, t)
    if r != z3.unsat and p.folds:
        Q.unify_folds(p, lambda extra, g: solve(p.conds + extra, g)[0] == z3.unsat)
    if r != z3.unsat:
        r, s = solve(p.conds, t)
    if r == z3.sat:
        small = s.model()
        for lim in (4, 12, 40):          # prefer a small counterexample: it is executed natively
            s.push()
            for v in o.inputs():
                s.add(v <= lim, v >= -lim)
            s.set('timeout', 2000)
            if s.check() == z3.sat:
                small = s.model()
                break
            s.pop()
        o.model = small
    dt = time.time() - t0
    o.solver_s += dt
    STATS.solver_s += dt
    if r == z3.unsat:
        o.backends['z3'] = o.backends.get('z3', 0) + 1
        return 'yes'
    if r == z3.sat:
        return 'no'
    if portfolio(p.conds, t):
        o.backends['z3 (other settings)'] = o.backends.get('z3 (other settings)', 0) + 1
        return 'yes'
    if cvc5_unsat(p.conds, t):
        o.backends['cvc5'] = o.backends.get('cvc5', 0) + 1
        return 'yes'
    return 'unknown'


def prove(entry, deadline):
    o = Obl(entry.name)
    holder = {}

    def fn():
        v = K.SymVars(P.cur())
        holder['v'] = v
        o.inputs = lambda: [t for x in v.vals.values() for t in ((x[2],) if isinstance(x, tuple) else (x,))]
        case = entry.fn(v)
        holder['case'] = case
        P.cur().n_req = len(P.cur().conds)
        P.cur().stage = 'run'
        out = case.run()
        return out

    def on_path(p, out):
        o.paths += 1
        case = holder.get('case')
        if out[0] == 'raise' and getattr(p, 'stage', None) != 'run':
            raise Unsupported('contract itself raised %r' % (out[1],) + ''.join(traceback.format_exception(out[1]))[-600:])
        P._cur = p
        try:
            run_goals(p, out, case)
        except P.Abort:
            pass
        finally:
            P._cur = None

    def all_goals(p, out, case):
        if out[0] == 'return':
            o.returns += 1
            if case.reject is not False:
                yield from Q.reject_goals(case.reject, True)
            yield from goals(case.expect, out[1])
        else:
            for lab, t in Q.reject_goals(case.reject, False):
                yield '%s (raised %s: %s)' % (lab, type(out[1]).__name__, str(out[1])[:120]), t

    def run_goals(p, out, case):
        for lab, t in all_goals(p, out, case):
            o.vcs += 1
            if isinstance(t, bool) and t:
                o.discharged += 1
                o.backends['direct'] = o.backends.get('direct', 0) + 1
                continue
            r = check_goal(p, t, o)
            if r == 'yes':
                o.discharged += 1
                continue
            if o.status in ('discharged', 'unknown') and (r == 'no' or o.status == 'discharged'):
                o.status = 'refuted' if r == 'no' else 'unknown'
                o.failed = lab
                o.gave_up = r != 'no'
                if out[0] == 'raise':
                    o.detail = ''.join(traceback.format_exception(out[1]))[-1200:]
                if r == 'no':
                    o.values = {}
                    for n, tt in holder['v'].vals.items():
                        o.values[n] = Q.model_value(o.model, tt)
    try:
        explore(fn, on_path, deadline)
        if o.status == 'discharged' and o.vcs == 0:
            o.status, o.detail = 'unknown', 'no verification condition was generated (precondition unsatisfiable?)'
        if o.status == 'discharged' and o.returns == 0:
            o.status, o.detail = 'unknown', 'no path returns'
    except P.TimeUp as e:
        if o.status != 'refuted':
            o.status, o.detail = 'timeout', str(e)
    except P.Gone as e:
        o.status, o.detail = 'gone', str(e)
    except Unsupported as e:
        if o.status != 'refuted':
            o.status, o.detail = ('gone' if 'contract itself raised ImportError' in str(e) else 'unsupported'), str(e)
    except z3.Z3Exception as e:
        if o.status != 'refuted':
            o.status, o.detail = 'unsupported', 'solver: %s' % e
    except (Exception, P.Abort, P.LoopReturn) as e:
        if o.status != 'refuted':
            o.status, o.detail = 'unsupported', 'engine: ' + ''.join(traceback.format_exception(e))[-1500:]
    return o


def todict(o):
    d = {k: getattr(o, k) for k in ('name', 'vcs', 'discharged', 'paths', 'returns', 'status', 'detail', 'failed', 'solver_s', 'backends')}
    d['values'] = getattr(o, 'values', None)
    d['gave_up'] = getattr(o, 'gave_up', False)
    return d


def run_shard(args):
    prop, tier, shard, n, budget = args
    from pyvc import env
    if 'onnx_tool' not in sys.modules:
        env.install()
        sys.setrecursionlimit(20000)
    import warnings
    warnings.simplefilter('ignore')
    import contracts
    es = contracts.entries(prop, tier)[shard::n]
    t_end = time.time() + budget
    res = []
    import contextlib, io
    for e in es:
        t0 = time.time()
        with contextlib.redirect_stdout(io.StringIO()):
            lim = 60 if tier == 'quick' else 200
            o = prove(e, min(t_end, time.time() + lim))
            if o.status == 'unknown' and time.time() < t_end:
                global PROVE_MS
                PROVE_MS *= 4
                o = prove(e, min(t_end, time.time() + 3 * lim))
                PROVE_MS //= 4
                if o.status == 'unknown' and time.time() >= t_end:
                    o.status = 'timeout'
        d = todict(o)
        d['bound'] = e.bound
        d['wall'] = time.time() - t0
        res.append(d)
    return {'res': res, 'functions': sorted(STATS.functions), 'queries': STATS.queries, 'solver_s': STATS.solver_s, 'paths': STATS.paths,
            'unknown_feas': STATS.unknown_feas}


def main():
    prop, out = sys.argv[1], sys.argv[2]
    tier = os.environ.get('VERIF_TIER', 'quick')
    n = int(os.environ.get('VERIF_JOBS', '7'))
    budget = float(os.environ.get('VERIF_A_BUDGET', '300' if tier == 'quick' else '780'))
    t0 = time.time()
    import multiprocessing as mp
    import contracts
    ne = len(contracts.entries(prop, tier))
    n = max(1, min(n, ne))
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(n, mp_context=mp.get_context('spawn')) as pool:        # a dead worker raises (check.py retries)
        parts = list(pool.map(run_shard, [(prop, tier, k, n, budget) for k in range(n)]))
    r = {'obligations': [d for p in parts for d in p['res']], 'functions': sorted({f for p in parts for f in p['functions']}),
         'queries': sum(p['queries'] for p in parts), 'solver_s': sum(p['solver_s'] for p in parts), 'paths': sum(p['paths'] for p in parts),
         'unknown_feas': sum(p['unknown_feas'] for p in parts), 'wall_s': time.time() - t0,
         'z3': z3.get_version_string()}
    json.dump(r, open(out, 'w'), default=str)


if __name__ == '__main__':
    sys.modules.setdefault('pyvc.prove', sys.modules['__main__'])
    main()
