"""Contracts on the real code and their three readings: symbolic (proof), on given values (native replay of a
countermodel), and on random values (engine cross-check and fallback search)."""
import random, time, traceback
import numpy as np


class Skip(Exception):
    """values outside the precondition"""


class Entry:
    """one contract instance: name, properties it belongs to, and fn(v) -> Case"""

    def __init__(self, name, props, fn, bound=''):
        self.name, self.props, self.fn, self.bound = name, props, fn, bound


class Ten:
    """operand: shape, element type, optional value (nested list), optional/absent operand when name is ''"""

    def __init__(self, shape, dtype=np.float32, value=None, absent=False):
        self.shape, self.dtype, self.value, self.absent = shape, dtype, value, absent


NONE = Ten([], absent=True)


class Case:
    """a run of the code with its postcondition.

    run(api) performs the call on the real code and returns an observable (nested lists/tuples of scalars,
    strings, None); expect is the specified observable; reject (a condition) says when the call must raise."""

    def __init__(self, run, expect, reject=False, desc=None):
        self.run, self.expect, self.reject, self.desc = run, expect, reject, desc


# ------------------------------------------------------------------ variables
class RandVars:
    native = True

    def __init__(self, rng, given=None):
        self.rng, self.given, self.vals = rng, given, {}

    def int(self, name, lo=None, hi=None):
        if self.given is not None:
            x = int(self.given.get(name, 0 if lo is None else lo))
        else:
            a = -8 if lo is None else lo
            b = (a + self.rng.choice([1, 3, 8, 30]) if hi is None else hi)
            x = self.rng.randint(a, max(a, min(b, a + 60)))
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise Skip()
        self.vals[name] = x
        return x

    def real(self, name):
        """a floating-point number"""
        if self.given is not None:
            x = float(self.given.get(name, 0))
        else:
            x = self.rng.choice([0., 1., -1., .5, float(np.float32(self.rng.uniform(-3, 3))), float(np.float32(self.rng.gauss(0, 1) * 10 ** self.rng.randint(-3, 3)))])
        self.vals[name] = x
        return x

    def tab(self, name, shape, dtype=np.float32, lo=None, hi=None):
        """an array of symbolic shape and elements"""
        shape = [min(int(n), 64) for n in shape]
        if self.given is not None and isinstance(self.given.get(name), list):
            x = np.zeros(shape, dtype)
            g = np.array(self.given[name]).reshape(-1)[:x.size]
            x.reshape(-1)[:len(g)] = g
        else:
            r = np.random.default_rng(self.rng.randint(0, 10 ** 9) if self.rng else 0)
            if np.dtype(dtype).kind == 'f':
                x = (r.normal(size=shape) * 10. ** r.integers(-2, 3)).astype(dtype)
                if r.random() < .3:
                    x = np.abs(x) * r.choice([-1, 1])
                x[r.random(size=shape) < r.choice([0, .5, .97])] = 0
            else:
                x = r.integers(-8 if lo is None else lo, 9 if hi is None else hi + 1, size=shape).astype(dtype)
        self.vals[name] = x.tolist()
        return x

    def values(self, name, shape, dtype, lo=None, hi=None, nonzero=False):
        """an array whose elements the contract speaks about"""
        shape = [int(n) for n in shape]
        if any(n < 0 for n in shape) or np.prod([float(n) for n in shape]) > 5000:
            raise Skip()
        r = np.random.default_rng(self.rng.randint(0, 10 ** 9) if self.rng else 0)
        k = np.dtype(dtype).kind
        if self.given is not None and isinstance(self.given.get(name), list):
            x = np.zeros(shape, dtype)
            g = np.array(self.given[name]).reshape(-1)[:x.size]
            x.reshape(-1)[:len(g)] = g
        elif k == 'f':
            x = (r.normal(size=shape) * 10. ** r.integers(-2, 2, size=shape)).astype(dtype)
            x = np.where(r.random(size=shape) < .3, np.round(x * 2) / 2, x).astype(dtype).reshape(shape)
        elif k == 'b':
            x = r.integers(0, 2, size=shape).astype(dtype).reshape(shape)
        else:
            x = np.asarray(r.integers((0 if k == 'u' else -9) if lo is None else int(lo), 10 if hi is None else int(hi) + 1, size=shape)).astype(dtype)
        if k == 'f' and (lo is not None or hi is not None):
            x = np.clip(np.abs(x) if lo == 0 else x, lo, hi).astype(dtype)
        if nonzero:
            x = np.where(x == 0, 1, x).astype(dtype).reshape(shape)
        self.vals[name] = x.tolist()
        return x

    def flat(self, name, n, dtype, lo=None, hi=None):
        """the elements of an array, in memory order"""
        n, dt = int(n), np.dtype(dtype)
        if n > 4096:
            raise Skip()
        r = np.random.default_rng(self.rng.randint(0, 10 ** 9) if self.rng else 0)
        if self.given is not None and isinstance(self.given.get(name), list):
            x = [e for e in self.given[name]][:n]
            x += [b'' if dt.kind == 'S' else 0] * (n - len(x))
        elif dt.kind == 'S':
            x = [bytes(r.integers(1, 256, r.integers(0, 4), dtype=np.uint8)) for _ in range(n)]
        elif dt.kind == 'f':
            x = (r.normal(size=n) * 10. ** r.integers(-2, 3)).astype(dt).tolist()
        elif dt.kind == 'b':
            x = [bool(e) for e in r.integers(0, 2, n)]
        else:
            i = np.iinfo(dt)
            x = r.integers(i.min if lo is None else lo, i.max if hi is None else hi, n, dtype=np.int64 if lo is not None else dt, endpoint=True).tolist()
            x = [int(r.choice([0, 1, i.max if hi is None else hi, i.min if lo is None else lo])) if r.random() < .2 else e for e in x]
        self.vals[name] = [e.decode('latin1') for e in x] if dt.kind == 'S' else x
        return x

    def zeros(self, name, shape, dtype):
        """an array given by where it equals a value"""
        shape = [int(n) for n in shape]
        r = np.random.default_rng(self.rng.randint(0, 10 ** 9) if self.rng else 0)
        if self.given is not None and isinstance(self.given.get(name), list):
            x = np.array(self.given[name]).astype(dtype).reshape(shape)
        else:
            z = 128 if np.dtype(dtype) == np.uint8 else 0
            x = r.integers(1, 100, shape).astype(dtype)
            for _ in range(r.integers(0, 3)):
                blk = [int(r.choice([b for b in (1, 2, 4, 8, 16) if n % b == 0])) if k < 2 else 1 for k, n in enumerate(shape)]
                m = r.random([n // b for n, b in zip(shape, blk)]) < r.choice([.2, .45, .7, .95])
                for k, b in enumerate(blk):
                    m = np.repeat(m, b, k)
                x[m] = z
            if self.rng and x.size < 3000:
                self.vals[name] = x.tolist()
        return x

    def blocks(self, x, value, size):
        """(number of blocks of that size that equal value throughout, number of blocks)"""
        a = np.asarray(x) == value
        for k, s in enumerate(size):
            a = a.reshape(a.shape[:k] + (a.shape[k] // s, s) + a.shape[k + 1:]).all(k + 1)
        return int(a.sum()), a.size

    def everywhere(self, shape, f):
        """f holds at every index"""
        out = None
        for i in np.ndindex(*[int(n) for n in shape]):
            r = f(*i)
            if not isinstance(r, dict):
                r = {'': r}
            out = {k: bool(x) and (out is None or out[k]) for k, x in r.items()}
        return {} if out is None else out[''] if '' in out else out

    def extreme(self, x, what, rg):
        r = x[tuple(slice(int(a), int(b)) for a, b in rg)]
        return r.min() if what == 'min' else r.max()

    def ext(self, name):
        return self.int(name, 1)

    def small(self, name, lo=1, span=4):
        """like int, sampled small (the proof reading has no upper bound)"""
        if self.given is None:
            self.vals[name] = x = self.rng.randint(lo, lo + span)
            return x
        return self.int(name, lo)

    def smalls(self, name, r, lo=1, span=4):
        return [self.small('%s%d' % (name, k), lo, span) for k in range(r)]

    def shape(self, name, r, lo=1):
        return [self.int('%s%d' % (name, k), lo) for k in range(r)]

    def seq(self, name, lo=1, rank=6):
        """a shape of any rank"""
        if self.given is not None:
            x = [int(e) for e in (self.given.get(name) or [])]
            x = [e if lo is None else max(e, lo) for e in x]
        else:
            x = [self.rng.choice([lo or 0, (lo or 0) + 1, (lo or 0) + 2, self.rng.randint(lo or 0, 40)]) for _ in range(self.rng.randint(0, rank))]
        self.vals[name] = x
        return x

    def require(self, c):
        if not c:
            raise Skip()

    def bool(self, name):
        return bool(self.int(name, 0, 1))


class SymVars:
    native = False

    def __init__(self, path):
        self.path = path
        self.vals = {}

    def int(self, name, lo=None, hi=None):
        import z3
        from .values import SymInt
        t = z3.Int(name)
        if lo is not None:
            self.path.assume(t >= lo)
        if hi is not None:
            self.path.assume(t <= hi)
        self.vals[name] = t
        return SymInt(t)

    def real(self, name):
        import z3
        from .values import Real
        self.vals[name] = t = z3.Real(name)
        return Real(t)

    def tab(self, name, shape, dtype=np.float32, lo=None, hi=None):
        from .tab import symtab
        x = symtab(name, shape, dtype)
        if lo is not None or hi is not None:
            import z3
            vs = [z3.Int('%s!b%d' % (name, k)) for k in range(len(shape))]
            w = x.base[1](*vs)
            self.path.assume(z3.ForAll(vs, z3.And(w >= (lo if lo is not None else w), w <= (hi if hi is not None else w)), patterns=[w]))
        return x

    def values(self, name, shape, dtype, lo=None, hi=None, nonzero=False):
        from .vals import inputs
        return inputs(name, shape, dtype, lo, hi, nonzero)

    def flat(self, name, n, dtype, lo=None, hi=None):
        import z3
        from .flat import FlatSeq, sort, wrapel
        from .values import term
        dt = np.dtype(dtype)
        f = z3.Function(name, z3.IntSort(), sort(dt))
        if dt.kind in 'iub':
            i = None if dt.kind == 'b' else np.iinfo(dt)
            lo = (0 if i is None else int(i.min)) if lo is None else lo
            hi = (1 if i is None else int(i.max)) if hi is None else hi
            k = z3.Int(name + '!k')
            self.path.assume(z3.ForAll([k], z3.And(f(k) >= lo, f(k) <= hi), patterns=[f(k)]))
        return FlatSeq(n, lambda i: wrapel(dt, f(i)), dt)

    def zeros(self, name, shape, dtype):
        from .zeros import Zarr
        return Zarr(name, shape, dtype)

    def blocks(self, x, value, size):
        from .zeros import blocks
        from .values import Real
        import z3
        from spec.sym import prod
        return Real(z3.ToReal(blocks(x.name, x.source, float(value), size))), prod([n // s for n, s in zip(x.source, size)])

    def everywhere(self, shape, f):
        from .path import cur
        from .values import SymInt, term
        import z3
        ks = [cur().fresh('any') for _ in shape]
        for k, n in zip(ks, shape):
            cur().assume(z3.And(k >= 0, k < term(n)))
        return f(*[SymInt(k) for k in ks])

    def extreme(self, x, what, rg):
        from .tab import extreme
        return extreme(x.base, what, rg)

    def ext(self, name):
        return self.int(name, 1)

    def small(self, name, lo=1, span=4):
        return self.int(name, lo)

    def smalls(self, name, r, lo=1, span=4):
        return self.shape(name, r, lo)

    def shape(self, name, r, lo=1):
        return [self.int('%s%d' % (name, k), lo) for k in range(r)]

    def seq(self, name, lo=1, rank=6):
        from .seq import symseq
        s, self.vals[name] = symseq(self.path, name, lo)
        return s

    def require(self, c):
        from .values import bterm
        if isinstance(c, bool) and not c:
            from .path import Abort
            raise Abort()
        self.path.assume(bterm(c))

    def bool(self, name):
        return bool(self.int(name, 0, 1) == 1)


# ------------------------------------------------------------------ native reading
def is_match(exp, got):
    """'' or the first difference between expected and observed"""
    if isinstance(exp, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(exp) != len(got):
            return 'expected %r, got %r' % (exp, got)
        for e, g in zip(exp, got):
            d = is_match(e, g)
            if d:
                return d
        return ''
    if isinstance(exp, dict):
        if not isinstance(got, dict) or set(exp) != set(got):
            return 'expected %r, got %r' % (exp, got)
        for k in exp:
            d = is_match(exp[k], got[k])
            if d:
                return '%s: %s' % (k, d)
        return ''
    try:
        if exp is None or got is None or isinstance(exp, str) or isinstance(got, str):
            return '' if exp == got else 'expected %r, got %r' % (exp, got)
        if isinstance(exp, float) or isinstance(got, (float, np.floating)):
            return '' if float(exp) == float(got) else 'expected %r, got %r' % (exp, got)
        return '' if int(exp) == int(got) and float(exp) == float(got) else 'expected %r, got %r' % (exp, got)
    except Exception:
        return 'expected %r, got %r' % (exp, got)


def native_run(entry, v):
    """run the real code on concrete values; returns (difference or '', case, values)"""
    import contextlib, io, warnings
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            case = entry.fn(v)
    except ImportError:
        raise Skip()            # an internal function this contract is written on no longer exists
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            got, err = case.run(), None
        except Skip:
            raise
        except Exception as e:
            got, err = None, e
    rej = case.reject() if callable(case.reject) else case.reject
    if bool(rej):
        return ('' if err is not None else 'inputs the operation excludes are accepted with %r' % (got,)), case, dict(v.vals)
    if err is not None:
        tb = ''.join(traceback.format_exception(err))[-1500:]
        return 'raised %r\n%s' % (err, tb), case, dict(v.vals)
    return is_match(case.expect, got), case, dict(v.vals)


def native_given(entry, vals):
    return native_run(entry, RandVars(None, vals))


def native_search(entry, n, seed, budget=2.0):
    """random search for a failing input of one contract; returns (tried, failure or None)"""
    rng = random.Random('%s/%s' % (seed, entry.name))
    tried, t0 = 0, time.time()
    for _ in range(n * 4):
        if tried >= n or time.time() - t0 > budget:
            break
        try:
            d, case, vals = native_run(entry, RandVars(rng))
        except Skip:
            continue
        tried += 1
        if d:
            return tried, (d, case, vals)
    return tried, None


# ------------------------------------------------------------------ building nodes and tensors on the real code
def bcast(v, seqs):
    """(shape, rejection condition) of the broadcast rule over shapes of any rank"""
    if v.native or all(isinstance(s, list) for s in seqs):
        from spec import shapes as S
        from spec.sym import Not
        o, ok = S.bcast(seqs)
        return o, Not(ok)
    from .seq import bcast as b
    return b(seqs)


def count(v, s):
    """elements as the tool counts them (rank 0 counts as none)"""
    if v.native or isinstance(s, list):
        from spec import shapes as S
        return S.count(s)
    from .seq import count as c
    return c(s)


class FakeAttr:
    """attribute protobuf look-alike that can carry symbolic numbers (proof reading only)"""
    FLOAT, INT, STRING, TENSOR, GRAPH, FLOATS, INTS, STRINGS = 1, 2, 3, 4, 5, 6, 7, 8
    UNDEFINED = 0
    ref_attr_name = ''

    def __init__(self, name, v):
        self.name = name
        self.ints, self.floats, self.strings = [], [], []
        if isinstance(v, str):
            v = v.encode()
        if isinstance(v, bytes):
            self.type, self.s = self.STRING, v
        elif isinstance(v, float):
            self.type, self.f = self.FLOAT, v
        elif isinstance(v, (list, tuple)) and v and isinstance(v[0], float):
            self.type, self.floats = self.FLOATS, list(v)
        elif isinstance(v, (list, tuple)) and v and isinstance(v[0], (str, bytes)):
            self.type, self.strings = self.STRINGS, [x.encode() if isinstance(x, str) else x for x in v]
        elif isinstance(v, (list, tuple)):
            self.type, self.ints = self.INTS, list(v)
        elif isinstance(v, np.ndarray):
            import onnx
            self.type, self.t = self.TENSOR, onnx.numpy_helper.from_array(v)
        else:
            self.type, self.i = self.INT, v


class FakeNode:
    def __init__(self, op, ins, outs, name, attrs):
        self.op_type, self.input, self.output, self.name, self.domain = op, ins, outs, name, ''
        self.attribute = [FakeAttr(k, v) for k, v in attrs.items()]


def make_node(native, op, ni, no, attrs, absent=()):
    ins = ['' if k in absent else 'i%d' % k for k in range(ni)]
    outs = ['o%d' % k for k in range(no)]
    from onnx_tool.node import create_node
    if native:
        import onnx
        at = {k: (onnx.numpy_helper.from_array(v) if isinstance(v, np.ndarray) else int(v) if not isinstance(v, (str, bytes, float, list, tuple)) else v) for k, v in attrs.items()}
        empty = [k for k, v in at.items() if isinstance(v, (list, tuple)) and not v]
        p = onnx.helper.make_node(op, ins, outs, 'n', **{k: v for k, v in at.items() if k not in empty})
        for k in empty:
            p.attribute.append(onnx.AttributeProto(name=k, type=onnx.AttributeProto.INTS))
        if op in ('Rope', 'SDPA', 'GQA', 'MQA', 'MoE', 'MLA', 'GDN'):
            from onnx_tool.node import TmpNodeProto
            p = TmpNodeProto('n', op, at)
    else:
        p = FakeNode(op, ins, outs, 'n', attrs)
        if op in ('Rope', 'SDPA', 'GQA', 'MQA', 'MoE', 'MLA', 'GDN'):
            from onnx_tool.node import TmpNodeProto
            p = TmpNodeProto('n', op, attrs)
    nd = create_node(p)
    nd.input, nd.output = ins, outs
    return nd


def make_tensor(native, name, t):
    from onnx_tool.tensor import Tensor
    import onnx_tool.tensor as T
    x = Tensor('' if t.absent else name)
    if t.absent:
        return x
    x.shape = list(t.shape) if isinstance(t.shape, tuple) else t.shape.copy() if isinstance(t.shape, list) or type(t.shape).__name__ == 'SymSeq' else t.shape
    x.dtype = t.dtype
    if t.value is not None:
        if native:
            x.numpy = np.array(t.value, dtype=t.dtype).reshape(t.shape)
            x.shape = list(x.numpy.shape)
        else:
            from .env import tagged, hassym
            x.numpy = tagged(t.value, t.dtype) if hassym(t.value) else np.array(t.value, dtype=t.dtype).reshape(tuple(t.shape))
        x.type = T.STATIC_TENSOR
    return x


def dtname(d):
    try:
        return np.dtype(d).name
    except Exception:
        return str(d)


def lst(s):
    return s if type(s).__name__ in ('SymSeq', 'SymRange') else [x for x in s]


def snapshot(x, depth=4):
    """the node's own state: containers by content, everything else by identity (objects are kept alive by the snapshot)"""
    if depth and isinstance(x, dict):
        return ('d', tuple((k, snapshot(y, depth - 1)) for k, y in x.items()))
    if depth and type(x) in (list, tuple):
        return (type(x).__name__, tuple(snapshot(y, depth - 1) for y in x))
    if isinstance(x, (int, float, str, bytes, bool, type(None))):
        return ('v', type(x).__name__, x)
    return ('o', id(x), x)


def unchanged(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'o':
        return a[1] == b[1]
    if a[0] == 'v':
        return a[1:] == b[1:]
    if a[0] == 'd':
        return len(a[1]) == len(b[1]) and all(k == q and unchanged(x, y) for (k, x), (q, y) in zip(a[1], b[1]))
    return len(a[1]) == len(b[1]) and all(unchanged(x, y) for x, y in zip(a[1], b[1]))


HISTORY = {'unchanged': 0, 'after other extents': 0}


def other_extents(v, ins):
    """operands of other extents (every known extent doubled) for an earlier inference on the same node"""
    out = []
    for t in ins:
        if t.absent or t.value is not None or not isinstance(t.shape, (list, tuple)):
            out.append(t)
        else:
            out.append(Ten([d if isinstance(d, int) and d <= 1 else 2 * d for d in t.shape], t.dtype))
    return out


def same_shapes(it, ins):
    """the operands' recorded shapes are those given"""
    r = True
    from spec.sym import And
    for t, x in zip(it, ins):
        if x.absent or not isinstance(x.shape, (list, tuple)) or x.value is not None:
            continue
        s = t.shape
        if not isinstance(s, (list, tuple)) or len(s) != len(x.shape):
            return False
        for a, b in zip(s, x.shape):
            if a is not b:
                r = And(r, a == b)
    return r


def with_history(v, fresh, infer, observe):
    """observe(infer(node)) on a fresh node; where inference changes the node's own state (otherwise any earlier inference leaves
    the node as new), also after an inference on operands of other extents"""
    used = v.int('used_before', 0, 1)

    def run():
        nd = fresh()
        if v.native and used == 1:
            try:
                infer(nd, True)
            except Exception:
                nd = fresh()
        before = None if v.native else snapshot(nd.__dict__)
        r = observe(nd, infer(nd, False))
        if v.native:
            return r
        if unchanged(before, snapshot(nd.__dict__)):
            HISTORY['unchanged'] += 1
            return r
        HISTORY['after other extents'] += 1
        if used == 1:
            nd = fresh()
            try:
                infer(nd, True)
            except Exception:
                nd = fresh()
            r = observe(nd, infer(nd, False))
        return r
    return run


def op_case(v, op, ins, attrs=None, n_out=1, shapes=None, dtypes=None, macs=None, reject=False, want=('shape',), values=None):
    """contract of one operator node: shape inference and cost, also on a node that has been used before"""
    attrs = attrs or {}
    others = other_extents(v, ins)

    def fresh():
        return make_node(v.native, op, len(ins), n_out, attrs, [k for k, t in enumerate(ins) if t.absent])

    outs = {}

    def infer(nd, other):
        it = [make_tensor(v.native, 'i%d' % k, t) for k, t in enumerate(others if other else ins)]
        ot = outs.get(id(nd))
        if ot is None or ot[0] is not nd:
            ot = outs[id(nd)] = (nd, [make_tensor(v.native, 'o%d' % k, Ten([], np.float16)) for k in range(n_out)])
        ot = ot[1]
        nd.shape_infer(it, ot)
        if 'macs' in want:
            return it, ot, nd.profile(it, ot)[0]
        return it, ot, None

    def observe(nd, res):
        it, ot, m = res
        r = {'operands kept': same_shapes(it, ins)}
        if 'shape' in want:
            r['shapes'] = [lst(t.get_shape()) for t in ot]
            if dtypes is not None:
                r['dtypes'] = [dtname(t.dtype) for t in ot]
        if 'macs' in want:
            r['macs'] = m
        return r
    exp = {'operands kept': True}
    if 'shape' in want:
        exp['shapes'] = [lst(s) for s in shapes] if shapes is not None else None
        if dtypes is not None:
            exp['dtypes'] = [dtname(d) for d in dtypes]
    if 'macs' in want:
        exp['macs'] = macs
    return Case(with_history(v, fresh, infer, observe), exp, reject, {'op': op, 'attrs': attrs, 'inputs': [(t.shape, dtname(t.dtype), t.value) for t in ins]})
