"""Loop heads.  A loop over a concrete sequence runs natively; a loop over a symbolic-length sequence is cut:
one arbitrary iteration from a generalised state proves the inferred summary, and execution continues after
the loop from that summary (see seq.py)."""
import ast, copy, sys
from . import path as P
from .path import Unsupported


class _Unbound:
    def __repr__(self):
        return '<unbound>'

    def __getattr__(self, n):
        raise Unsupported('variable bound only inside a symbolic loop')


UNBOUND = _Unbound()


def pv_get(f):
    try:
        return f()
    except NameError:
        return UNBOUND


PURE = {'isinstance', 'int', 'max', 'min', 'len', 'abs', 'range', 'zip', 'enumerate', 'list', 'tuple', 'str', 'float', 'sum', 'sorted', 'bool',
        'ValueError', 'TypeError', 'NotImplementedError', 'AssertionError', 'RuntimeError', 'IndexError', 'KeyError', 'Exception', 'round', 'all', 'any',
        'reversed', 'type', 'hasattr', 'getattr', 'warn', 'repr', 'set', 'dict', '_pv_comp', '_pv_in', '_pv_loop', '_pv_get', 'volume', 'bytes', 'bytearray'}
PUREM = {'append', 'extend', 'get_shape', 'tolist', 'copy', 'format', 'item', 'join', 'run', 'index', 'count', 'min', 'max', 'sum', 'astype', 'reshape', 'mean', 'all', 'any', 'transpose', 'keys', 'values', 'items', 'get', 'tobytes', 'to_bytes', 'encode', 'decode', 'to_array', 'get_numpy'}


def fresh_lists(body):
    """names bound to a list made by a statement of the body itself, and to nothing else"""
    made, other = set(), set()

    def islist(v):
        return isinstance(v, (ast.List, ast.ListComp)) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'list')
    for s in ast.walk(ast.Module(body, [])):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name) and not islist(s.value):
                    other.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    other |= {x.id for x in t.elts if isinstance(x, ast.Name)}
        elif isinstance(s, ast.For):
            other |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    for s in body:
        if isinstance(s, ast.Assign) and islist(s.value):
            made |= {t.id for t in s.targets if isinstance(t, ast.Name)}
    return made - other


def stored_names(body):
    fr = fresh_lists(body)
    out = set()
    for s in ast.walk(ast.Module(body, [])):
        if isinstance(s, ast.Subscript) and isinstance(s.ctx, ast.Store) and isinstance(s.value, ast.Name) and s.value.id not in fr:
            out.add(s.value.id)
    return out


def effect_free(body, stores=False, calls=None):
    """the body's only effects are on local names (assignments, append/extend on local lists, stores to local arrays);
    other functions it calls are collected in calls (when given) and judged at run time"""
    fr = fresh_lists(body)
    for s in ast.walk(ast.Module(body, [])):
        if isinstance(s, (ast.Attribute,)) and isinstance(s.ctx, (ast.Store, ast.Del)):
            return False
        if isinstance(s, ast.Subscript) and isinstance(s.ctx, ast.Del):
            return False
        if isinstance(s, ast.Subscript) and isinstance(s.ctx, ast.Store):
            if not isinstance(s.value, ast.Name) or (s.value.id not in fr and not stores):
                return False
        if isinstance(s, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.NamedExpr, ast.Await, ast.Delete, ast.With, ast.Import, ast.ImportFrom)):
            return False
        if isinstance(s, ast.Call):
            f = s.func
            if isinstance(f, ast.Name):
                if f.id not in PURE:
                    if calls is None:
                        return False
                    calls.add(f.id)
            elif isinstance(f, ast.Attribute):
                if f.attr in PUREM and (f.attr not in ('append', 'extend') or isinstance(f.value, ast.Name)):
                    continue
                root = f.value
                while isinstance(root, ast.Attribute):
                    root = root.value
                if not (isinstance(root, ast.Name) and root.id in ('numpy', 'np', 'math', 'ctypes', 'struct')):
                    return False
            else:
                return False
        if isinstance(s, ast.Name) and s.id == 'super':
            return False
    return True


class ReturnToRaise(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Return(self, n):
        c = ast.Call(ast.Name('_pv_exit', ast.Load()), [n.value or ast.Constant(None)], [])
        return ast.copy_location(ast.Raise(c, None), n)


def own_breaks(body):
    for s in body:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if isinstance(s, (ast.For, ast.While)) and own_breaks(s.orelse):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if own_breaks(getattr(s, f, []) or []):
                return True
        for h in getattr(s, 'handlers', []) or []:
            if own_breaks(h.body):
                return True
    return False


def rewrite_for(n, key, infunc, orig):
    """for T in E: B  ->  native loop, or (E of symbolic length) the body as a function handed to the loop rule"""
    if not infunc:
        return n
    assigned, mutated = set(), set()
    for s in ast.walk(ast.Module(n.body, [])):
        if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
            assigned.add(s.id)
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and isinstance(s.func.value, ast.Name) and s.func.attr in ('append', 'extend'):
            mutated.add(s.func.value.id)
    for s in ast.walk(n.target):
        if isinstance(s, ast.Name):
            assigned.add(s.id)
    names = sorted(v for v in assigned | mutated if not v.startswith('_pv'))
    calls = set()
    stores = stored_names(orig)
    mutated -= fresh_lists(orig)
    assigned |= stores
    bad = own_breaks(n.body) or bool(n.orelse) or not effect_free(orig, True, calls)
    names = sorted(v for v in assigned | mutated if not v.startswith('_pv'))
    lv = '_pv_l_%s' % key.split('#')[-1]

    def load(x):
        return ast.Name(x, ast.Load())

    def args(xs):
        return ast.arguments([], [ast.arg(x) for x in xs], None, [], [], None, [])
    callees = ast.Tuple([ast.Call(load('_pv_get'), [ast.Lambda(args([]), load(x))], []) for x in sorted(calls)], ast.Load())
    head = ast.Assign([ast.Name(lv, ast.Store())], ast.Call(load('_pv_loop'), [ast.Constant(key), n.iter, ast.Constant(bad), callees], []))
    native = copy.deepcopy(n)
    native.iter = ast.Attribute(load(lv), 'it', ast.Load())
    if bad or not names:
        return [ast.copy_location(head, n), ast.copy_location(native, n)]

    def getters():
        return ast.Tuple([ast.Call(load('_pv_get'), [ast.Lambda(args([]), load(x))], []) for x in names], ast.Load())
    fn = '_pv_b_%s' % key.split('#')[-1]
    inner = ast.For(ast.Name('_pv_once', ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()),
                    [ReturnToRaise().visit(copy.deepcopy(s)) for s in n.body], [], None)
    fdef = ast.FunctionDef(fn, args(['_pv_e'] + names),
                           [ast.Assign([copy.deepcopy(n.target)], load('_pv_e')), inner, ast.Return(getters())], [], None)
    if hasattr(fdef, 'type_params'):
        fdef.type_params = []
    call = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                      ast.Call(ast.Attribute(load(lv), 'run', ast.Load()),
                               [ast.Constant(tuple(names)), getters(), ast.Constant(tuple(sorted(mutated))), load(fn), ast.Constant(tuple(sorted(stores)))], []))
    leave = ast.If(ast.Attribute(load(lv), 'exited', ast.Load()), [ast.Return(ast.Attribute(load(lv), 'value', ast.Load()))], [])
    return [ast.copy_location(head, n), ast.copy_location(ast.If(ast.Attribute(load(lv), 'sym', ast.Load()), [fdef, call, leave], [native]), n)]


class Native:
    sym = False

    def __init__(self, it):
        self.it = it


PURITY = {}      # (file, first line, name) of every function of the code under proof -> (effect free, names it calls)


def register(fname, n, body):
    calls = set()
    ok = effect_free(body, False, calls)
    nested = {x.name for x in ast.walk(ast.Module(body, [])) if isinstance(x, ast.FunctionDef)}
    PURITY[(fname, n.lineno, n.name)] = (ok, calls - nested)


def pure(f, depth=0):
    """f is a function of the code under proof whose only effects are on its local names"""
    c = getattr(f, '__code__', None)
    if c is None or depth > 4:
        return f in (min, max, abs, round)
    ok, calls = PURITY.get((c.co_filename, c.co_firstlineno, c.co_name), (False, ()))
    if not ok:
        return False
    for x in calls:
        v = f.__globals__.get(x)
        if v is None and f.__closure__ and x in c.co_freevars:
            v = f.__closure__[c.co_freevars.index(x)].cell_contents
        if v is None or not pure(v, depth + 1):
            return False
    return True


CUT = []         # a contract's cut of one concrete loop: (accepts(frame locals), generator(frame locals, iterable))


def pv_loop(key, it, bad, callees=()):
    from . import seq as Q
    if CUT:
        loc = sys._getframe(1).f_locals
        if CUT[0][0](loc, it):
            return Native(CUT[0][1](loc, it))
    if hasattr(type(it), '__symseq__'):
        it = it.__symseq__()
    if isinstance(it, Q.SymSeq):
        c = it.concrete()
        if c is not None:
            return Native(c)
        if bad:
            raise Unsupported('loop %s over a symbolic sequence is outside the loop rule' % key)
        for f in callees:
            if f is not UNBOUND and not pure(f):
                raise Unsupported('loop %s calls %s, which may have effects' % (key, getattr(f, '__name__', f)))
        from .tab import Grid, GridCut
        if isinstance(it, Grid) and len(it.dims) > 1:
            return GridCut(key, it)
        return Q.LoopCut(key, it)
    return Native(it)
