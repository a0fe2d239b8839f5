"""Computed values: the element every value_infer puts at an arbitrary index of its output, for arrays of the listed ranks with symbolic
extents and symbolic elements, against the ONNX definition of the operator."""
import itertools
import numpy as np
from pyvc.contract import Entry, Case, Ten, make_node, make_tensor, dtname, lst, with_history
from spec import shapes as S
from spec import values as D
from spec.values import X
from spec.sym import ite, And, Or, Not, prod

F, F64, I32, I64, U8, I8, B = np.float32, np.float64, np.int32, np.int64, np.uint8, np.int8, np.bool_


class In:
    """operand of a value contract; arr: None = symbolic elements"""

    def __init__(self, shape, dtype=F, arr=None, lo=None, hi=None, nonzero=False, absent=False, fixed=None):
        self.shape, self.dtype, self.arr, self.lo, self.hi, self.nonzero, self.absent, self.fixed = shape, dtype, arr, lo, hi, nonzero, absent, fixed


def helpers(v):
    return D.N if v.native else D.Z


def kept(v, x):
    return None if x is None else (x.copy(),) if v.native or isinstance(x, np.ndarray) else (x, x.version)


def same_as(v, x, b):
    if x is None:
        return b is None
    if v.native:
        return bool(x.dtype == b[0].dtype and np.array_equal(x, b[0], equal_nan=x.dtype.kind == 'f'))
    if isinstance(x, np.ndarray):
        return x.shape == b[0].shape and all(p is q or (isinstance(p, (int, float, bool, np.generic)) and p == q) for p, q in zip(np.ndarray.reshape(x, -1), np.ndarray.reshape(b[0], -1)))
    return x is b[0] and x.version == b[1]


def value_case(v, op, ins, define, attrs=None, n_out=1, reject=False):
    """define(m, operands) -> list of (shape, ok, element type, element) per output"""
    m = helpers(v)
    attrs = attrs or {}
    xs = []
    for k, x in enumerate(ins):
        if x.absent:
            xs.append(None)
            continue
        if x.arr is None and x.fixed is None:
            x.arr = v.values('i%d' % k, x.shape, x.dtype, x.lo, x.hi, x.nonzero)
        xs.append(X(m, x.arr, x.shape, x.dtype) if x.fixed is None else x.fixed)
    outs = define(m, xs)
    for sh, ok, dt, f in outs:
        v.require(ok)

    def fresh():
        return make_node(v.native, op, len(ins), n_out, attrs, [k for k, t in enumerate(ins) if t.absent])

    def infer(nd, other):
        it = []
        for k, t in enumerate(ins):
            if t.fixed is not None:
                it.append(make_tensor(v.native, 'i%d' % k, Ten(t.shape, t.dtype, t.fixed)))
            else:
                y = make_tensor(v.native, 'i%d' % k, Ten(t.shape, t.dtype, absent=t.absent))
                if not t.absent:
                    # an earlier inference saw other values: the same operands' elements in reverse
                    y.numpy = t.arr if not other or not v.native or not np.size(t.arr) else np.ascontiguousarray(np.asarray(t.arr).reshape(-1)[::-1].reshape(np.shape(t.arr)))
                    y.type = 1
                it.append(y)
        ot = [make_tensor(v.native, 'o%d' % k, Ten([], np.float16)) for k in range(n_out)]
        before = [kept(v, t.get_numpy() if t.name else None) for t in it]
        nd.value_infer(it, ot)
        return it, ot, before

    def observe(nd, res):
        it, ot, before = res
        r = {'operands kept': all(same_as(v, t.get_numpy() if t.name else None, b) for t, b in zip(it, before)), 'shapes': [lst(t.get_shape()) for t in ot], 'dtypes': [dtname(t.dtype) for t in ot], 'values': []}
        for t, (sh, ok, dt, f) in zip(ot, outs):
            y = t.get_numpy()
            if v.native:
                good = list(np.shape(y)) == [int(n) for n in sh] and np.asarray(y).dtype == np.dtype(dt)
                r['values'].append(bool(good and all(m.eq(dt, np.asarray(y)[i].item(), m.conv(dt, f(*i))) for i in np.ndindex(*[int(n) for n in sh]))))
            else:
                from pyvc import vals
                y = vals.table(y)
                r['values'].append(any(isinstance(n, int) and n == 0 for n in sh) or v.everywhere(sh, lambda *i: m.eq(dt, m.get(y, dt, i), m.conv(dt, f(*i)))))
        return r
    exp = {'operands kept': True, 'shapes': [lst(sh) for sh, _, _, _ in outs], 'dtypes': [dtname(dt) for _, _, dt, _ in outs], 'values': [True] * len(outs)}
    return Case(with_history(v, fresh, infer, observe), exp, reject, {'op': op, 'attrs': attrs, 'inputs': [(x.shape, dtname(x.dtype)) for x in ins]})


def binop(op, dts, out, ranks, attrs=None, f=None, **kw):
    def fn(v):
        ins = [In(v.smalls('s%d_' % k, r, 0, 3), dts[k % len(dts)], **(kw if k else {})) for k, r in enumerate(ranks)]

        def define(m, xs):
            o, ok, e = D.elementwise(m, xs, (f or (lambda m: D.binary(m, op if op != 'Mod' or not attrs else 'Fmod', dts[0])))(m))
            return [(o, ok, out, e)]
        return value_case(v, op, ins, define, attrs)
    return fn


def unop(op, dt, rank, attrs=None, out=None, f=None, **kw):
    def fn(v):
        ins = [In(v.smalls('s', rank, 0), dt, **kw)]

        def define(m, xs):
            g = f(m) if f else D.unary(m, op, attrs or {})
            return [(xs[0].shape, True, out or dt, lambda *i: g(xs[0](*i)))]
        return value_case(v, op, ins, define, attrs)
    return fn


PAIRS = [(0, 0), (1, 1), (2, 1), (0, 2), (2, 3)]
UNARY = ['Neg', 'Abs', 'Ceil', 'Floor', 'Round', 'Identity', 'Dropout', 'Exp', 'Log', 'Sqrt', 'Sin', 'Cos', 'Tanh', 'Atan', 'Erf', 'Sigmoid', 'Softplus', 'Reciprocal',
         'Sign', 'Relu', 'Relu6', 'Elu', 'LeakyRelu', 'HardSigmoid', 'HardSwish']


def pointwise(tier):
    full = tier == 'thorough'
    pairs = PAIRS if full else [(1, 1), (2, 1), (0, 2)]
    for op in ('Add', 'Sub', 'Mul', 'Div', 'Pow', 'Mod', 'Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'Min', 'Max'):
        for dt in (F, I64) + ((F64, I32) if full else ()):
            if op == 'Mod' and np.dtype(dt).kind == 'f':
                continue
            out = B if op in ('Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal') else dt
            kw = {'nonzero': True} if op in ('Div', 'Mod') else {'lo': 0} if op == 'Pow' and np.dtype(dt).kind == 'i' else {}
            for p in pairs:
                yield '%s/%s/ranks %d,%d' % ((op, dtname(dt)) + p), binop(op, [dt], out, p, **kw)
    for dt in (F, I64):
        for p in pairs:
            yield 'Mod/fmod/%s/ranks %d,%d' % ((dtname(dt),) + p), binop('Mod', [dt], dt, p, {'fmod': 1}, nonzero=True)
    for op in ('And', 'Or', 'Xor', 'Equal'):
        for p in pairs:
            yield '%s/bool/ranks %d,%d' % ((op,) + p), binop(op, [B], B, p)
    for op in ('Sum', 'Min', 'Max'):
        for rs in [(2,), (1, 2), (2, 1, 2)] + ([(0, 1, 2), (1, 2, 1, 3)] if full else []):
            f = {'Sum': lambda m: lambda *a: sum(a[1:], a[0]),
                 'Min': lambda m: lambda *a: fold(lambda x, y: m.ite(x <= y, x, y), a), 'Max': lambda m: lambda *a: fold(lambda x, y: m.ite(x >= y, x, y), a)}[op]
            for dt in (F, I64):
                yield '%s/%s/operands of rank %s' % (op, dtname(dt), ','.join(map(str, rs))), binop(op, [dt], dt, rs, f=f)
    for rs in [(1, 1, 1), (2, 1, 2), (0, 2, 1)] + ([(1, 0, 3), (3, 2, 1)] if full else []):
        for dt in (F, I64, B):
            yield 'Where/%s/ranks %s' % (dtname(dt), ','.join(map(str, rs))), binop('Where', [B, dt, dt], dt, rs, f=lambda m: m.ite)
    for op in UNARY:
        ats = {'Elu': [None, {'alpha': .25}], 'LeakyRelu': [{'alpha': .25}, None], 'HardSigmoid': [None, {'alpha': .25, 'beta': .75}]}.get(op, [None])
        for dt in (F, F64) if full else (F,):
            for r in ((0, 1, 2, 3) if full else (1, 2)):
                for at in ats:
                    kw = {'nonzero': True} if op == 'Reciprocal' else {}
                    yield '%s/%s/rank %d%s' % (op, dtname(dt), r, '' if at is None else '/attributes'), unop(op, dt, r, at, **kw)
        if op in ('Neg', 'Abs', 'Sign', 'Identity', 'Relu'):
            for r in (1, 2):
                yield '%s/int64/rank %d' % (op, r), unop(op, I64, r)
    for r in (0, 1, 2):
        yield 'Not/rank %d' % r, unop('Not', B, r)
    for src in (F, F64, I32, I64, B):
        for to, code in ((F, 1), (I32, 6), (I64, 7), (B, 9), (F64, 11)) + (((np.dtype('uint32'), 12), (np.dtype('uint64'), 13)) if src == B else ()):
            for r in (0, 2):
                yield 'Cast/%s to %s/rank %d' % (dtname(src), dtname(to), r), unop('Cast', src, r, {'to': code}, to, lambda m, to=to, src=src: lambda x: m.conv(to, x))
    for lo, hi in ((1, 1), (1, 0), (0, 1), (0, 0)):
        for dt in (F, I64):
            for r in (1, 2):
                yield 'Clip/%s/rank %d/%s' % (dtname(dt), r, ['unbounded', 'upper', 'lower', 'both'][2 * lo + hi]), clip(dt, r, lo, hi)
    yield 'Clip/float32/rank 1/no bounds given', unop('Clip', F, 1, f=lambda m: lambda x: x)


def fold(f, a):
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
    return r


def clip(dt, r, lo, hi):
    def fn(v):
        ins = [In(v.smalls('s', r, 0), dt), In([], dt, absent=not lo), In([], dt, absent=not hi)]
        if not hi:
            ins = ins[:2 if lo else 3]

        def define(m, xs):
            a = xs[1]() if lo else None
            b = xs[2]() if hi else None
            return [(xs[0].shape, True, dt, lambda *i: D.clip(m, xs[0](*i), a, b))]
        return value_case(v, 'Clip', ins, define)
    return fn


# ------------------------------------------------------------------ moving elements around
def same(x):
    return x.shape, True, x.dtype, lambda *i: x(*i)


def vec(v, name, n, lo=None, hi=None):
    """a shape-like operand: n numbers"""
    return [v.int('%s%d' % (name, k), lo, hi) for k in range(n)]


def transpose(r, perm, dt=F):
    def fn(v):
        p = perm if perm is not None else list(range(r))[::-1]

        def define(m, xs):
            inv = [p.index(k) for k in range(r)]
            return [([xs[0].shape[a] for a in p], True, dt, lambda *i: xs[0](*[i[inv[k]] for k in range(r)]))]
        return value_case(v, 'Transpose', [In(v.smalls('s', r, 0), dt)], define, {} if perm is None else {'perm': perm})
    return fn


def concat(r, axis, n, dt=F):
    def fn(v):
        base = v.smalls('s', r, 0)
        a = axis % r
        ins = []
        for k in range(n):
            s = list(base)
            s[a] = v.small('n%d' % k, 0, 3)
            ins.append(In(s, dt))

        def define(m, xs):
            sh = list(base)
            sh[a] = sum([x.shape[a] for x in xs[1:]], xs[0].shape[a])

            def e(*i):
                off, parts = 0, []
                for x in xs:
                    parts.append((off, off + x.shape[a], x))
                    off = off + x.shape[a]
                if v.native:
                    for lo, hi, x in parts:
                        if lo <= i[a] < hi:
                            return x(*(i[:a] + (i[a] - lo,) + i[a + 1:]))
                r_ = None
                for lo, hi, x in reversed(parts):
                    w = x(*(i[:a] + (i[a] - lo,) + i[a + 1:]))
                    r_ = w if r_ is None else m.ite(i[a] < hi, w, r_)
                return r_
            return [(sh, True, dt, e)]
        return value_case(v, 'Concat', ins, define, {'axis': axis})
    return fn


def rowmajor(shape, i):
    p = 0
    for n, k in zip(shape, i):
        p = p * n + k
    return p


def unravel(shape, p):
    out = []
    for n in reversed(shape[1:]):
        out.append(p % n)
        p = p // n
    return ([p] if shape else []) + out[::-1]


def reshape(src, dst, op='Reshape', attrs=None):
    """src: list of extents (None = symbolic); dst: the request; the result keeps the row-major order"""
    def fn(v):
        s = [v.small('s%d' % k, 1) if n is None else n for k, n in enumerate(src)]
        x = In(s, F)
        want = dst(s)
        req, sh = want
        ins = [x] + ([In([len(req)], I64, fixed=list(req))] if req is not None else [])

        def define(m, xs):
            def e(*i):
                if v.native:
                    return np.asarray(xs[0].arr).reshape(-1)[int(rowmajor(sh, i))].item()
                return xs[0](*relate(xs[0].shape, sh, i))
            return [(sh, True, F, e)]
        return value_case(v, op, ins, define, attrs)
    return fn


def relate(old, new, i):
    """index in the old shape of the element at index i of the new one (row-major order), block of axes by block of axes: blocks are given by
    equal products of extents, inside a block by division"""
    from pyvc import vals
    out = []
    for so, sn in vals.regroup(list(old), list(new)):
        o, n, ii = list(old[so]), list(new[sn]), list(i[sn])
        out += ii if len(o) == 1 and len(n) == 1 else unravel(o, rowmajor(n, ii))
    return out


def flatten(r, axis):
    def dst(s):
        a = axis % r if axis < r or r == 0 else axis
        if axis < 0:
            a = axis + r
        return None, [prod(s[:a]), prod(s[a:])]
    return reshape([None] * r, dst, 'Flatten', {} if axis == 1 else {'axis': axis})


def unsqueeze(r, axes, form):
    def fn(v):
        n = r + len(axes)
        pos = [a % n for a in axes]
        ins = [In(v.smalls('s', r, 0), F)]
        if form == 'tensor':
            ins.append(In([len(axes)], I64, fixed=list(axes)))

        def define(m, xs):
            it = iter(xs[0].shape)
            sh = [1 if k in pos else next(it) for k in range(n)]
            return [(sh, True, F, lambda *i: xs[0](*[i[k] for k in range(n) if k not in pos]))]
        return value_case(v, 'Unsqueeze', ins, define, {'axes': list(axes)} if form == 'attribute' else {})
    return fn


def squeeze(r, axes, form):
    def fn(v):
        pos = [a % r for a in axes]
        s = [1 if k in pos else v.small('s%d' % k, 0) for k in range(r)]
        if form == 'all':
            for k in range(r):
                if k not in pos:
                    v.require(s[k] != 1)
        ins = [In(s, F)]
        if form == 'tensor':
            ins.append(In([len(axes)], I64, fixed=list(axes)))
        if form == 'all' and r % 2:
            ins.append(In([], absent=True))

        def define(m, xs):
            def e(*i):
                it = iter(i)
                return xs[0](*[0 if k in pos else next(it) for k in range(r)])
            return [([n for k, n in enumerate(s) if k not in pos], True, F, e)]
        return value_case(v, 'Squeeze', ins, define, {'axes': list(axes)} if form == 'attribute' else {})
    return fn


def slice_(r, axes, steps, form, dt=F):
    """form: attributes | tensors; axes None: the first axes"""
    def fn(v):
        n = len(steps) if steps is not None else len(axes)
        s = v.smalls('s', r, 0)
        pos = [a % r for a in axes] if axes is not None else list(range(n))
        st = v_vec(v, 'start', n)
        en = v_vec(v, 'end', n)
        sp = list(steps) if steps is not None else [1] * n
        if any(p < 0 for p in sp):
            for a, p in zip(pos, sp):
                if p < 0:
                    v.require(s[a] >= 1)
        at = {}
        ins = [In(s, dt)]
        if form == 'attributes':
            at = {'starts': st, 'ends': en}
            if axes is not None:
                at['axes'] = list(axes)
        else:
            ins += [In([n], I64, fixed=st), In([n], I64, fixed=en)]
            if axes is not None or steps is not None:
                ins.append(In([n], I64, fixed=list(axes) if axes is not None else list(range(n))) if form != 'axes left out' else In([], absent=True))
            if steps is not None:
                ins.append(In([n], I64, fixed=sp))
            elif form == 'steps left out':
                ins.append(In([], absent=True))

        def define(m, xs):
            lo, sh = [0] * r, list(s)
            mul = [1] * r
            for a, b, e, p in zip(pos, st, en, sp):
                lo[a], sh[a] = D.slice_rule(s[a], b, e, p)
                mul[a] = p
            return [(sh, True, dt, lambda *i: xs[0](*[lo[k] + i[k] * mul[k] for k in range(r)]))]
        return value_case(v, 'Slice', ins, define, at)
    return fn


def v_vec(v, name, n):
    return [v.int('%s%d' % (name, k)) for k in range(n)]


def gather(r, q, axis, dt=F):
    def fn(v):
        a = axis % r
        s = v.smalls('s', r, 0)
        if v.native:
            v.require(s[a] >= 1)
        ix = In(v.smalls('n', q, 0), I64, lo=-s[a], hi=s[a] - 1)

        def define(m, xs):
            def e(*i):
                k = xs[1](*i[a:a + q])
                return xs[0](*(i[:a] + (ite(k < 0, k + s[a], k),) + i[a + q:]))
            return [(s[:a] + ix.shape + s[a + 1:], True, dt, e)]
        return value_case(v, 'Gather', [In(s, dt), ix], define, {} if axis == 0 else {'axis': axis})
    return fn


def gather_elements(r, axis):
    def fn(v):
        a = axis % r
        s, t = v.smalls('s', r, 1), v.smalls('t', r, 1)
        for k in range(r):
            if k != a:
                v.require(t[k] <= s[k])
        ix = In(t, I64, lo=-s[a], hi=s[a] - 1)

        def define(m, xs):
            def e(*i):
                k = xs[1](*i)
                return xs[0](*(i[:a] + (ite(k < 0, k + s[a], k),) + i[a + 1:]))
            return [(t, True, F, e)]
        return value_case(v, 'GatherElements', [In(s, F), ix], define, {} if axis == 0 else {'axis': axis})
    return fn


def expand(r, q, dt=F):
    def fn(v):
        s = v.smalls('s', r, 1)
        t = v.smalls('t', q, 1)

        def define(m, xs):
            o, ok = S.bcast([s, t])
            return [(o, ok, dt, lambda *i: xs[0].at(o, i))]
        return value_case(v, 'Expand', [In(s, dt), In([q], I64, fixed=t)], define)
    return fn


def tile(r):
    def fn(v):
        s, t = v.smalls('s', r, 1), v.smalls('t', r, 0)

        def define(m, xs):
            return [([a * b for a, b in zip(s, t)], True, F, lambda *i: xs[0](*[k % n for k, n in zip(i, s)]))]
        return value_case(v, 'Tile', [In(s, F), In([r], I64, fixed=t)], define)
    return fn


def pad(r, mode, form, value, dt=F):
    def fn(v):
        s = v.smalls('s', r, 1)
        p = [v.int('p%d' % k, 0, 3) if v.native else v.int('p%d' % k, 0) for k in range(2 * r)]
        axes = list(range(r))
        if isinstance(form, tuple):
            axes = [a % r for a in form]
            given = p[:len(axes)] + p[r:r + len(axes)]
            p = [p[axes.index(k % r) + (k // r) * r] if k % r in axes else 0 for k in range(2 * r)]
        at = {} if mode is None else {'mode': mode}
        ins = [In(s, dt)]
        if form == 'attribute':
            at['pads'] = p
            if value:
                at['value'] = 2.5
        else:
            ins.append(In([2 * len(axes)], I64, fixed=given if isinstance(form, tuple) else p))
            if value:
                ins.append(In([], dt))
            elif isinstance(form, tuple) or form == 'value left out':
                ins.append(In([], absent=True))
            if isinstance(form, tuple):
                ins.append(In([len(axes)], I64, fixed=list(form)))

        def define(m, xs):
            fill = 0 if not value else 2.5 if form == 'attribute' else xs[2]()

            def e(*i):
                j = [k - p[a] for a, k in enumerate(i)]
                if mode == 'edge':
                    return xs[0](*[ite(k < 0, 0, ite(k >= n, n - 1, k)) for k, n in zip(j, s)])
                ok = And(*[And(k >= 0, k < n) for k, n in zip(j, s)])
                if v.native:
                    return xs[0](*j) if ok else fill
                return m.ite(ok, xs[0](*j), fill)
            return [([n + p[k] + p[k + r] for k, n in enumerate(s)], True, dt, e)]
        return value_case(v, 'Pad', ins, define, at)
    return fn


def split(r, axis, form, n):
    def fn(v):
        a = axis % r
        parts = [v.small('part%d' % k, 1, 3) for k in range(n)]
        if form == 'equal':
            parts = [parts[0]] * n
        s = v.smalls('s', r, 1)
        s[a] = sum(parts[1:], parts[0])
        ins, at = [In(s, F)], {} if axis == 0 else {'axis': axis}
        if form == 'attribute':
            at['split'] = parts
        elif form == 'tensor':
            ins.append(In([n], I64, fixed=parts))
        elif r % 2:
            ins.append(In([], absent=True))

        def define(m, xs):
            out, off = [], 0
            for p in parts:
                sh = list(s)
                sh[a] = p
                out.append((sh, True, F, lambda *i, off=off: xs[0](*(i[:a] + (i[a] + off,) + i[a + 1:]))))
                off = off + p
            return out
        return value_case(v, 'Split', ins, define, at, n)
    return fn


def trilu(r, upper, k):
    def fn(v):
        kk = v.int('k', -5, 5) if v.native else v.int('k')
        ins = [In(v.smalls('s', r, 0), F)] + ([In([], I64, arr=np.int64(kk) if v.native else kk, fixed=kk)] if k else [In([], absent=True)] if r == 3 else [])

        def define(m, xs):
            d = kk if k else 0

            def e(*i):
                c = i[-1] - i[-2] >= d if upper else i[-1] - i[-2] <= d
                return m.ite(c, xs[0](*i), 0)
            return [(xs[0].shape, True, F, e)]
        return value_case(v, 'Trilu', ins, define, {} if upper else {'upper': 0})
    return fn


def shape_of(r):
    def fn(v):
        s = v.smalls('s', r, 0)

        def define(m, xs):
            def e(i):
                w = s[-1] if s else 0
                for k in reversed(range(r - 1)):
                    w = m.ite(i == k, s[k], w)
                return w
            return [([r], True, I64, e)]
        return value_case(v, 'Shape', [In(s, F)], define)
    return fn


def moving(tier):
    full = tier == 'thorough'
    for r in (1, 2, 3):
        for p in [None] + [list(q) for q in itertools.permutations(range(r))]:
            yield 'Transpose/rank %d/%s' % (r, 'reversed' if p is None else p), transpose(r, p)
    for r in (1, 2, 3):
        for a in range(-r, r):
            for n in (1, 2, 3):
                yield 'Concat/rank %d/axis %d/%d operands' % (r, a, n), concat(r, a, n, I64 if (r + a + n) % 2 else F)
    for name, src, dst in [
            ('flattened', [None, None, None], lambda s: ([-1], [s[0] * s[1] * s[2]])), ('kept', [None, None], lambda s: ([0, 0], s)), ('merged tail', [None] * 3, lambda s: ([0, -1], [s[0], s[1] * s[2]])),
            ('merged head', [None] * 3, lambda s: ([-1, s[2]], [s[0] * s[1], s[2]])), ('split', [None, 6], lambda s: ([0, 2, 3], [s[0], 2, 3])), ('split with rest', [None, 6], lambda s: ([0, 3, -1], [s[0], 3, 2])),
            ('regrouped', [2, 6], lambda s: ([3, 4], [3, 4])), ('regrouped head', [4, 3, None], lambda s: ([6, 2, -1], [6, 2, s[2]])), ('to scalar', [1, 1], lambda s: ([], [])),
            ('added ones', [None, None], lambda s: ([1, s[0], 1, s[1]], [1, s[0], 1, s[1]])), ('explicit', [None, None, None], lambda s: ([s[0] * s[1], s[2]], [s[0] * s[1], s[2]]))]:
        yield 'Reshape/%s' % name, reshape(src, dst)
    for r in (1, 2, 3, 4):
        for a in range(-r, r + 1):
            yield 'Flatten/rank %d/axis %d' % (r, a), flatten(r, a)
    for r, axes in [(0, [0]), (1, [0]), (1, [1]), (1, [-1]), (2, [1]), (2, [0, 3]), (2, [-1, 0]), (2, [-1, -4]), (1, [2, 0]), (3, [2])]:
        for form in ('attribute', 'tensor'):
            yield 'Unsqueeze/rank %d/axes %s/%s' % (r, axes, form), unsqueeze(r, axes, form)
    for r, axes in [(1, [0]), (2, [0]), (2, [-1]), (3, [0, 2]), (3, [-1, 0]), (3, [1]), (4, [-2, 0])]:
        for form in ('attribute', 'tensor', 'all'):
            yield 'Squeeze/rank %d/axes %s/%s' % (r, axes, form), squeeze(r, axes, form)
    for r, axes, steps in [(1, None, None), (2, None, None), (2, [1], None), (2, [-1], None), (3, [2, 0], None), (1, [0], [1]), (1, [0], [2]), (1, [0], [-1]), (1, [0], [-2]), (2, [1], [3]), (2, [-2], [-1]),
                           (2, [1, 0], [2, -1]), (2, [0, 1], [1, 2])] + ([(3, [1, 2], [-3, 1]), (3, [0, 1, 2], [1, 2, -1])] if full else []):
        for form in ('attributes', 'tensors'):
            if form == 'attributes' and steps is not None:
                continue
            yield 'Slice/rank %d/axes %s/steps %s/%s' % (r, axes, steps, form), slice_(r, axes if axes is not None else None, steps if steps is not None else (None if axes is not None else [1] * 1), form) if axes is not None else slice_lead(r, form)
    for r, axes, steps in [(1, [0], [2]), (1, [0], [-1]), (2, [0, 1], [1, 2]), (2, [0], [3])]:
        yield 'Slice/rank %d/steps %s/axes left out' % (r, steps), slice_(r, axes, steps, 'axes left out')
    for r, axes in [(1, [0]), (2, [1]), (2, [-1, 0])]:
        yield 'Slice/rank %d/axes %s/steps left out' % (r, axes), slice_(r, axes, None, 'steps left out')
    for r, q, a in [(1, 0, 0), (1, 1, 0), (1, 2, 0), (2, 1, 0), (2, 1, 1), (2, 0, -1), (2, 2, 1), (3, 1, -2), (3, 0, 2)]:
        for dt in (F, I64):
            yield 'Gather/%s/rank %d/indices of rank %d/axis %d' % (dtname(dt), r, q, a), gather(r, q, a, dt)
    for r in (1, 2, 3):
        for a in range(-r, r):
            yield 'GatherElements/rank %d/axis %d' % (r, a), gather_elements(r, a)
    for r, q in [(0, 1), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (1, 3)]:
        for dt in (F, I64):
            yield 'Expand/%s/ranks %d,%d' % (dtname(dt), r, q), expand(r, q, dt)
    for r in (1, 2, 3):
        yield 'Tile/rank %d' % r, tile(r)
    for r in (1, 2, 3):
        for mode in (None, 'constant', 'edge'):
            for form in ('attribute', 'tensor'):
                for value in (0, 1):
                    if mode == 'edge' and value:
                        continue
                    yield 'Pad/rank %d/%s/%s/%s' % (r, mode, form, 'value' if value else 'zero'), pad(r, mode, form, value)
        yield 'Pad/rank %d/value left out' % r, pad(r, None, 'value left out', 0)
        for axes in [(0,), (-1,), (r - 1, 0), (-1, -r)][:2 if r == 1 else 4]:
            for value in (0, 1):
                yield 'Pad/rank %d/axes %s/%s' % (r, list(axes), 'value' if value else 'value left out'), pad(r, None, axes, value)
        yield 'Pad/int64/rank %d' % r, pad(r, None, 'tensor', 1, I64)
    for r, a in [(1, 0), (2, 0), (2, 1), (2, -1), (3, 1), (3, -2)]:
        for form in ('attribute', 'tensor', 'equal'):
            for n in (1, 2, 3):
                yield 'Split/rank %d/axis %d/%s/%d parts' % (r, a, form, n), split(r, a, form, n)
    for r in (2, 3):
        for u in (1, 0):
            for k in (0, 1):
                yield 'Trilu/rank %d/%s/%s' % (r, 'upper' if u else 'lower', 'k' if k else 'main diagonal'), trilu(r, u, k)
    for r in (0, 1, 2, 3, 4):
        yield 'Shape/rank %d' % r, shape_of(r)


def slice_lead(r, form):
    """no axes given: the leading axes"""
    def fn(v):
        s = v.smalls('s', r, 0)
        st, en = v_vec(v, 'start', r), v_vec(v, 'end', r)
        at, ins = {}, [In(s, F)]
        if form == 'attributes':
            at = {'starts': st, 'ends': en}
        else:
            ins += [In([r], I64, fixed=st), In([r], I64, fixed=en)]

        def define(m, xs):
            lo, sh = zip(*[D.slice_rule(s[a], st[a], en[a], 1) for a in range(r)])
            return [(list(sh), True, F, lambda *i: xs[0](*[lo[k] + i[k] for k in range(r)]))]
        return value_case(v, 'Slice', ins, define, at)
    return fn


# ------------------------------------------------------------------ folding elements
def over(m, what, dt, shape, axes, get):
    """fold of get(index) over the axes; index holds the kept axes at their places"""
    def go(left, idx):
        if not left:
            return get(*idx)
        a = left[0]

        def f(k):
            j = list(idx)
            j[a] = k
            return go(left[1:], j)
        return m.red(what, shape[a], f, dt)
    return go


def reduction(op, r, axes, keep, form, dt=F):
    def fn(v):
        s = v.smalls('s', r, 1)
        ax = list(range(r)) if axes is None else sorted(a % r for a in axes)
        at = {} if keep is None else {'keepdims': keep}
        k = keep is None or keep == 1
        if form == 'empty, kept':
            ax, at['noop_with_empty_axes'] = [], 1
        ins = [In(s, dt)]
        if form == 'attribute':
            at['axes'] = list(axes)
        elif form == 'tensor':
            ins.append(In([len(axes)], I64, fixed=list(axes)))
        elif form == 'left out':
            ins.append(In([], absent=True))
        elif form[:5] == 'empty':
            ins.append(In([0], I64, fixed=[]))

        def define(m, xs):
            def e(*i):
                it = iter(i)
                idx = list(i) if k else [None if a in ax else next(it) for a in range(r)]
                x = xs[0]
                if op == 'ReduceL2':
                    return m.fn('sqrt', over(m, 'sum', dt, s, ax, lambda *j: x(*j) * x(*j))(ax, idx))
                what = {'ReduceMean': 'sum', 'ReduceSum': 'sum', 'ReduceProd': 'prod', 'ReduceMax': 'max', 'ReduceMin': 'min', 'GlobalAveragePool': 'sum'}[op]
                t = over(m, what, dt, s, ax, lambda *j: x(*j))(ax, idx)
                if op in ('ReduceMean', 'GlobalAveragePool'):
                    n = 1
                    for a in ax:
                        n = n * s[a]
                    t = m.div(t, n)
                return t
            return [([1 if a in ax else n for a, n in enumerate(s) if k or a not in ax], True, dt, e)]
        return value_case(v, op, ins, define, at)
    return fn


def argmax(r, axis, keep, last):
    def fn(v):
        s = v.smalls('s', r, 1)
        a = (axis or 0) % r
        at = {k: x for k, x in (('axis', axis), ('keepdims', keep), ('select_last_index', last)) if x is not None}
        kd = keep is None or keep == 1

        def define(m, xs):
            def e(*i):
                it = iter(i)
                idx = list(i) if kd else [None if k == a else next(it) for k in range(r)]

                def f(k):
                    j = list(idx)
                    j[a] = s[a] - 1 - k if last else k
                    return xs[0](*j)
                p = m.red('argmax', s[a], f, F)
                return s[a] - 1 - p if last else p
            return [([1 if k == a else n for k, n in enumerate(s) if kd or k != a], True, I64, e)]
        return value_case(v, 'ArgMax', [In(s, F)], define, at)
    return fn


def softmax(r, axis):
    def fn(v):
        s = v.smalls('s', r, 1)
        a = (-1 if axis is None else axis) % r

        def define(m, xs):
            def e(*i):
                def at(k):
                    return xs[0](*(i[:a] + (k,) + i[a + 1:]))
                mx = m.red('max', s[a], at, F)
                return m.div(m.fn('exp', xs[0](*i) - mx), m.red('sum', s[a], lambda k: m.fn('exp', at(k) - mx), F))
            return [(s, True, F, e)]
        return value_case(v, 'Softmax', [In(s, F)], define, {} if axis is None else {'axis': axis})
    return fn


def cumsum(r, axis, dt, attrs=None):
    def fn(v):
        s = v.smalls('s', r, 1)
        a = axis % r

        def define(m, xs):
            return [(s, True, dt, lambda *i: m.red('sum', i[a] + 1, lambda k: xs[0](*(i[:a] + (k,) + i[a + 1:])), dt))]
        return value_case(v, 'CumSum', [In(s, dt), In([], I64, fixed=axis)], define, attrs)
    return fn


def not_provided(op, ins, attrs=None, n_out=1):
    """an operator (or a form of it) whose values are not computed says so: it never returns as if it had computed them"""
    def fn(v):
        for k, x in enumerate(ins):
            if x.fixed is None:
                x.arr = v.values('i%d' % k, x.shape, x.dtype)

        def run():
            nd = make_node(v.native, op, len(ins), n_out, attrs or {})
            it = []
            for k, t in enumerate(ins):
                y = make_tensor(v.native, 'i%d' % k, Ten(t.shape, t.dtype, t.fixed))
                if t.fixed is None:
                    y.numpy, y.type = t.arr, 1
                it.append(y)
            ot = [make_tensor(v.native, 'o%d' % k, Ten([], np.float16)) for k in range(n_out)]
            try:
                nd.value_infer(it, ot)
            except Exception:
                return 'raised'
            return 'returned'
        return Case(run, 'raised', desc={'op': op, 'attrs': attrs})
    return fn


def matmul(ra, rb, dt=F):
    def fn(v):
        k = v.small('inner', 1)
        a, b = v.smalls('a', ra, 1), v.smalls('b', rb, 1)
        a[-1] = k
        b[-2 if rb > 1 else -1] = k

        def define(m, xs):
            ba, bb = a[:-2], b[:-2]
            o, ok = S.bcast([ba, bb])
            A, Bm = X(m, xs[0].arr, a, dt), X(m, xs[1].arr, b, dt)

            def e(*i):
                h, t = i[:len(o)], list(i[len(o):])
                ia = [ite(n == 1, 0, h[q + len(o) - len(ba)]) for q, n in enumerate(ba)]
                ib = [ite(n == 1, 0, h[q + len(o) - len(bb)]) for q, n in enumerate(bb)]
                row = [t[0]] if ra > 1 else []
                col = [t[-1]] if rb > 1 else []
                return m.red('sum', k, lambda q: A(*(ia + row + [q])) * Bm(*(ib + [q] + col)), dt)
            return [(list(o) + ([a[-2]] if ra > 1 else []) + ([b[-1]] if rb > 1 else []), ok, dt, e)]
        return value_case(v, 'MatMul', [In(a, dt), In(b, dt)], define)
    return fn


def gemm(ta, tb, c, alpha, beta):
    def fn(v):
        n, k, q = v.small('n'), v.small('k'), v.small('m')
        ins = [In([k, n] if ta else [n, k], F), In([q, k] if tb else [k, q], F)]
        at = {}
        if ta is not None:
            at['transA'] = ta
        if tb is not None:
            at['transB'] = tb
        if alpha is not None:
            at['alpha'] = alpha
        if beta is not None:
            at['beta'] = beta
        if c is not None:
            ins.append(In({'matrix': [n, q], 'row': [1, q], 'vector': [q], 'column': [n, 1], 'scalar': []}[c], F))

        def define(m, xs):
            def e(i, j):
                y = m.red('sum', k, lambda t: (xs[0](t, i) if ta else xs[0](i, t)) * (xs[1](j, t) if tb else xs[1](t, j)), F)
                if alpha is not None:
                    y = y * alpha
                if c is not None:
                    z = xs[2].at([n, q], (i, j))
                    y = y + (z * beta if beta is not None else z)
                return y
            return [([n, q], True, F, e)]
        return value_case(v, 'Gemm', ins, define, at)
    return fn


def matmul_integer(zp):
    def fn(v):
        n, k, q = v.small('n'), v.small('k'), v.small('m')
        ins = [In([n, k], U8, lo=0, hi=255), In([k, q], I8, lo=-128, hi=127)]
        if zp:
            ins.append(In([n] if zp == 'rows' else [], U8, lo=0, hi=255))
            if zp != 'first':
                ins.append(In([q] if zp == 'rows' else [], I8, lo=-128, hi=127))

        def define(m, xs):
            def e(i, j):
                za = 0 if not zp else xs[2](i) if zp == 'rows' else xs[2]()
                zb = 0 if zp in (None, 'first') else xs[3](j) if zp == 'rows' else xs[3]()
                return m.red('sum', k, lambda t: (xs[0](i, t) - za) * (xs[1](t, j) - zb), I32)
            return [([n, q], True, I32, e)]
        return value_case(v, 'MatMulInteger', ins, define)
    return fn


def batchnorm(r, eps):
    def fn(v):
        s = v.smalls('s', r, 1)
        c = s[1]
        ins = [In(s, F), In([c], F), In([c], F), In([c], F), In([c], F, lo=0)]

        def define(m, xs):
            x, sc, b, mean, var = xs
            return [(s, True, F, lambda *i: (x(*i) - mean(i[1])) * m.div(sc(i[1]), m.fn('sqrt', var(i[1]) + (1e-5 if eps is None else eps))) + b(i[1]))]
        return value_case(v, 'BatchNormalization', ins, define, {} if eps is None else {'epsilon': eps})
    return fn


def folding(tier):
    full = tier == 'thorough'
    for op in ('ReduceMean', 'ReduceSum', 'ReduceProd', 'ReduceMax', 'ReduceMin', 'ReduceL2'):
        for r, axes in [(1, [0]), (2, [0]), (2, [-1]), (2, [0, 1]), (3, [-1, 0]), (3, [1])]:
            for keep in (None, 0, 1):
                for form in ('attribute', 'tensor'):
                    if keep is None and form == 'tensor' and not full:
                        continue
                    yield '%s/rank %d/axes %s/keepdims %s/%s' % (op, r, axes, keep, form), reduction(op, r, axes, keep, form)
        for r in (1, 2):
            for keep in (None, 0):
                yield '%s/rank %d/all axes/keepdims %s' % (op, r, keep), reduction(op, r, None, keep, 'none')
                for form in ('left out', 'empty', 'empty, kept'):
                    yield '%s/rank %d/axes %s/keepdims %s' % (op, r, form, keep), reduction(op, r, None, keep, form)
        if op not in ('ReduceMean', 'ReduceL2'):
            yield '%s/int64/rank 2' % op, reduction(op, 2, [1], 0, 'tensor', I64)
    for r in (3, 4):
        yield 'GlobalAveragePool/rank %d' % r, reduction('GlobalAveragePool', r, list(range(2, r)), None, 'implied')
    for r, axis in [(1, None), (1, 0), (2, None), (2, 1), (2, -1), (3, 1)]:
        for keep in (None, 0, 1):
            for last in (None, 1):
                yield 'ArgMax/rank %d/axis %s/keepdims %s/%s' % (r, axis, keep, 'last' if last else 'first'), argmax(r, axis, keep, last)
    for r, axis in [(1, None), (1, 0), (2, None), (2, 0), (3, 1), (3, -1), (2, -2)]:
        yield 'Softmax/rank %d/axis %s' % (r, axis), softmax(r, axis)
    for r, axis in [(1, 0), (2, 0), (2, 1), (3, -1), (3, 1)]:
        for dt in (F, I64, I32):
            yield 'CumSum/%s/rank %d/axis %d' % (dtname(dt), r, axis), cumsum(r, axis, dt)
    for at in ({'exclusive': 1}, {'reverse': 1}):
        yield 'CumSum/not provided/%s' % list(at)[0], not_provided('CumSum', [In([3], F), In([], I64, fixed=0)], at)
    for ra, rb in [(2, 2), (1, 2), (2, 1), (1, 1), (3, 2), (2, 3), (3, 3), (4, 3)]:
        for dt in (F, I64):
            yield 'MatMul/%s/ranks %d,%d' % (dtname(dt), ra, rb), matmul(ra, rb, dt)
    for ta, tb, c, al, be in [(None, None, None, None, None), (1, None, 'vector', None, None), (None, 1, 'matrix', None, None), (1, 1, 'row', .5, .25), (0, 0, 'scalar', 2., None), (None, 1, 'column', None, 3.),
                              (0, 1, None, .5, None), (1, 0, None, None, .5), (None, None, 'vector', 0., .5), (1, 1, 'matrix', 1.5, 0.)]:
        yield 'Gemm/transA %s/transB %s/C %s/alpha %s/beta %s' % (ta, tb, c, al, be), gemm(ta, tb, c, al, be)
    for zp in (None, 'first', 'scalars', 'rows'):
        yield 'MatMulInteger/zero points %s' % zp, matmul_integer(zp)
    for r in (2, 3, 4):
        for eps in (None, .01):
            yield 'BatchNormalization/rank %d/epsilon %s' % (r, eps), batchnorm(r, eps)


# ------------------------------------------------------------------ selecting and filling elements
def compress(r, axis, mask):
    """mask: its length is the number of conditions; the axis may be longer"""
    def fn(v):
        s = v.smalls('s', r, 0)
        cond = [v.bool('c%d' % k) for k in range(mask)]
        if axis is None:
            n = 1
            for x in s:
                n = n * x
        else:
            n = s[axis % r]
        v.require(n >= mask)
        if v.native:
            sel_ = [k for k in range(mask) if cond[k]]
        else:
            sel_ = [k for k in range(mask) if bool(cond[k])]
        at = {} if axis is None else {'axis': axis}

        def define(m, xs):
            def e(*i):
                a = axis % r if axis is not None else 0
                p = sel_[-1] if sel_ else 0
                for q in range(len(sel_) - 2, -1, -1):
                    p = ite(i[a] == q, sel_[q], p)
                if axis is None:
                    return xs[0](*unflat(s, p))
                return xs[0](*(i[:a] + (p,) + i[a + 1:]))
            sh = [len(sel_)] if axis is None else s[:axis % r] + [len(sel_)] + s[axis % r + 1:]
            return [(sh, True, F, e)]
        return value_case(v, 'Compress', [In(s, F), In([mask], B, fixed=cond if not v.native else [bool(c) for c in cond])], define, at)
    return fn


def unflat(s, p):
    ix = []
    for n in reversed(s[1:]):
        ix.append(p % n)
        p = p // n
    return [p] + ix[::-1]


def constant_of_shape(r, value):
    def fn(v):
        t = v.smalls('t', r, 0)
        at = {} if value is None else {'value': value}
        dt = F if value is None else value.dtype

        def define(m, xs):
            return [(t, True, dt, lambda *i: m.conv(dt, 0 if value is None else value[0].item()))]
        return value_case(v, 'ConstantOfShape', [In([r], I64, fixed=t)], define, at)
    return fn


def constant(value):
    def fn(v):
        def define(m, xs):
            return [(list(value.shape), True, value.dtype, lambda *i: D.pick(m, value, i))]
        return value_case(v, 'Constant', [], define, {'value': value})
    return fn


def range_(step, dt=I64):
    def fn(v):
        a, b = (v.int('start', -9, 9), v.int('limit', -9, 9)) if v.native else (v.int('start'), v.int('limit'))

        def define(m, xs):
            n = ite(b > a, D.ceildiv(b - a, step), 0) if step > 0 else ite(b < a, D.ceildiv(a - b, -step), 0)
            return [([n], True, dt, lambda i: m.conv(dt, a + i * step))]
        return value_case(v, 'Range', [In([], dt, fixed=a), In([], dt, fixed=b), In([], dt, fixed=step)], define)
    return fn


def one_hot(r, axis, depth_shape, dt=F):
    def fn(v):
        s, d = v.smalls('s', r, 0), v.small('depth', 1)
        a = (-1 if axis is None else axis) % (r + 1)
        ins = [In(s, I64, lo=-d - 2, hi=d + 2) if v.native else In(s, I64), In(depth_shape, I64, fixed=d if not depth_shape else [d]), In([2], dt)]

        def define(m, xs):
            def e(*i):
                k = xs[0](*(i[:a] + i[a + 1:]))
                hit = Or(k == i[a], And(k < 0, k + d == i[a]))
                return m.ite(hit, xs[2](1), xs[2](0))
            return [(s[:a] + [d] + s[a:], True, dt, e)]
        return value_case(v, 'OneHot', ins, define, {} if axis is None else {'axis': axis})
    return fn


def nd_index(v, n, q, s, bound_only=None):
    return [[v.int('x%d_%d' % (a, b), -4, 3) if v.native else v.int('x%d_%d' % (a, b)) for b in range(q)] for a in range(n)]


def in_range(v, idx, s):
    for row in idx:
        for k, n in zip(row, s):
            v.require(And(k >= -n, k < n))


def nest(flat, shape):
    if len(shape) == 0:
        return flat[0]
    if len(shape) == 1:
        return list(flat)
    n = len(flat) // shape[0]
    return [nest(flat[k * n:(k + 1) * n], shape[1:]) for k in range(shape[0])]


def gather_nd(r, outer, q, batch=0):
    """data of rank r, index array of shape outer + [q]"""
    def fn(v):
        s = v.smalls('s', r, 1)
        for k in range(batch):
            s[k] = outer[k]
        n = 1
        for k in outer:
            n *= k
        idx = nd_index(v, n, q, s)
        in_range(v, idx, s[batch:])

        def define(m, xs):
            def e(*i):
                head, rest = i[:len(outer)], i[len(outer):]

                def at(f):
                    pos = [ite(k < 0, k + d, k) for k, d in zip(idx[f], s[batch:])]
                    return xs[0](*(tuple(head[:batch]) + tuple(pos) + tuple(rest)))
                val = at(n - 1)
                for f in range(n - 2, -1, -1):
                    here = True
                    w = f
                    for h, o in zip(reversed(head), reversed(outer)):
                        here = And(here, h == w % o)
                        w //= o
                    val = m.ite(here, at(f), val)
                return val
            return [(list(outer) + s[batch + q:], True, F, e)]
        flat = [x for row in idx for x in row]
        return value_case(v, 'GatherND', [In(s, F), In(list(outer) + [q], I64, fixed=nest(flat, list(outer) + [q]))], define, {'batch_dims': batch} if batch else {})
    return fn


def scatter_nd(r, n, q, red, dt=F):
    def fn(v):
        s = v.smalls('s', r, 1)
        idx = nd_index(v, n, q, s)
        in_range(v, idx, s)
        pos = [[ite(k < 0, k + d, k) for k, d in zip(row, s)] for row in idx]
        if red in (None, 'none'):
            for a in range(n):
                for b in range(a):
                    v.require(Not(alland([x == y for x, y in zip(pos[a], pos[b])])))

        def define(m, xs):
            def e(*i):
                val = xs[0](*i)
                for f in range(n):
                    u = xs[2](*((f,) + tuple(i[q:])))
                    new = {'add': lambda: val + u, 'mul': lambda: val * u, 'max': lambda: m.ite(val >= u, val, u), 'min': lambda: m.ite(val <= u, val, u)}.get(red, lambda: u)()
                    val = m.ite(alland([x == y for x, y in zip(i, pos[f])]), new, val)
                return val
            return [(s, True, dt, e)]
        return value_case(v, 'ScatterND', [In(s, dt), In([n, q], I64, fixed=idx), In([n] + s[q:], dt)], define, {} if red is None else {'reduction': red})
    return fn


def alland(xs):
    r = True
    for x in xs:
        r = And(r, x)
    return r


def dropout_mask(r):
    def fn(v):
        s = v.smalls('s', r, 0)

        def define(m, xs):
            return [(s, True, F, lambda *i: xs[0](*i)), (s, True, B, lambda *i: True)]
        return value_case(v, 'Dropout', [In(s, F)], define, n_out=2)
    return fn


def selecting(tier):
    full = tier == 'thorough'
    for r, axis, mask in [(1, 0, 2), (2, 0, 2), (2, 1, 3), (2, -1, 2), (3, 1, 2), (1, None, 3), (2, None, 2)]:
        yield 'Compress/rank %d/axis %s/%d conditions' % (r, axis, mask), compress(r, axis, mask)
    for r in (0, 1, 2, 3):
        yield 'ConstantOfShape/rank %d/no value' % r, constant_of_shape(r, None)
        for val in (np.array([2.5], F), np.array([-3], I64), np.array([7], I32), np.array([1], B)):
            yield 'ConstantOfShape/rank %d/%s' % (r, val.dtype), constant_of_shape(r, val)
    for val in (np.array(1.5, F), np.array([3, -1], I64), np.arange(6, dtype=F).reshape(2, 3), np.array([[1], [0]], B)):
        yield 'Constant/%s/%s' % (val.dtype, list(val.shape)), constant(val)
    for st in (1, 2, 3, -1, -2):
        for dt in (I64, I32) + ((F,) if full else ()):
            yield 'Range/%s/delta %d' % (dtname(dt), st), range_(st, dt)
    for r, axis in [(0, None), (1, None), (1, 0), (1, 1), (2, None), (2, 1), (2, -2), (2, 0)]:
        for ds in ([], [1]):
            for dt in (F, I64):
                yield 'OneHot/%s/rank %d/axis %s/depth of shape %s' % (dtname(dt), r, axis, ds), one_hot(r, axis, ds, dt)
    for r, outer, q, b in [(1, [1], 1, 0), (2, [1], 2, 0), (2, [2], 1, 0), (3, [2], 2, 0), (2, [], 1, 0), (2, [], 2, 0), (2, [2, 1], 2, 0), (3, [1, 2], 1, 0), (2, [2], 1, 1), (3, [2], 1, 1), (3, [2], 2, 1), (3, [2, 2], 1, 1)]:
        yield 'GatherND/rank %d/indices %s/batch_dims %d' % (r, outer + [q], b), gather_nd(r, outer, q, b)
    for r, n, q in [(1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (2, 1, 2), (2, 2, 2), (3, 2, 2)]:
        for red in (None, 'none', 'add', 'mul', 'max', 'min'):
            if red is not None and r == 3 and not full:
                continue
            yield 'ScatterND/rank %d/%d rows of %d/%s' % (r, n, q, red), scatter_nd(r, n, q, red)
    for r in (0, 1, 2):
        yield 'Dropout/mask/rank %d' % r, dropout_mask(r)


# ------------------------------------------------------------------ windows
def out_extent(n, k, stride, dil, p0, p1, auto, ceil_mode=False):
    """(extent, pad before)"""
    if auto in ('SAME_UPPER', 'SAME_LOWER'):
        o = D.ceildiv(n, stride)
        tot = (o - 1) * stride + (k - 1) * dil + 1 - n
        tot = ite(tot < 0, 0, tot)
        return o, (tot // 2 if auto == 'SAME_UPPER' else tot - tot // 2)
    if auto == 'VALID':
        p0 = p1 = 0
    span = n + p0 + p1 - ((k - 1) * dil + 1)
    return (D.ceildiv(span, stride) if ceil_mode else span // stride) + 1, p0


def window_attrs(v, nd, strides, dil, auto, pads, ks):
    at = {}
    if strides is not None:
        at['strides'] = list(strides)
    if dil is not None:
        at['dilations'] = list(dil)
    p = [0] * (2 * nd)
    if auto is not None:
        at['auto_pad'] = auto
    elif pads:
        p = [(v.int('p%d' % k, 0, ks[k % nd] - 1)) for k in range(2 * nd)]
        at['pads'] = p
    return at, p, list(strides or [1] * nd), list(dil or [1] * nd)


def conv2d(cin, ks, strides=None, dil=None, auto=None, pads=False, bias=False):
    def fn(v):
        s = [v.small('n')] + [cin] + v.smalls('s', 2, 1)
        co = v.small('co')
        at, p, st, di = window_attrs(v, 2, strides, dil, auto, pads, ks)
        w = [co, cin] + list(ks)
        ext = [out_extent(s[2 + a], ks[a], st[a], di[a], p[a], p[2 + a], auto) for a in range(2)]
        for a in range(2):
            v.require(ext[a][0] >= 1)
            v.require(s[2 + a] + p[a] + p[2 + a] >= (ks[a] - 1) * di[a] + 1)
        ins = [In(s, F), In(w, F)] + ([In([co], F)] if bias else [In([], absent=True)] if cin == 2 else [])
        at['kernel_shape'] = list(ks)

        def define(m, xs):
            def e(n, c, y, x):
                t = xs[2](c) if bias else 0
                for j in itertools.product(range(cin), range(ks[0]), range(ks[1])):
                    h = y * st[0] + j[1] * di[0] - ext[0][1]
                    g = x * st[1] + j[2] * di[1] - ext[1][1]
                    ok = And(And(h >= 0, h < s[2]), And(g >= 0, g < s[3]))
                    if v.native:
                        t = t + (xs[0](n, j[0], h, g) * xs[1](c, *j) if ok else 0.)
                    else:
                        t = t + m.ite(ok, xs[0](n, j[0], h, g) * xs[1](c, *j), 0.)
                return t
            return [([s[0], co, ext[0][0], ext[1][0]], True, F, e)]
        return value_case(v, 'Conv', ins, define, at)
    return fn


def max_pool(nd, ks, strides=None, dil=None, auto=None, pads=False, ceil_mode=None, dt=F):
    def fn(v):
        s = [v.small('n'), v.small('c')] + v.smalls('s', nd, 1)
        at, p, st, di = window_attrs(v, nd, strides, dil, auto, pads, ks)
        at['kernel_shape'] = list(ks)
        if ceil_mode is not None:
            at['ceil_mode'] = ceil_mode
        ext = [out_extent(s[2 + a], ks[a], st[a], di[a], p[a], p[nd + a], auto, bool(ceil_mode)) for a in range(nd)]
        for a in range(nd):
            v.require(ext[a][0] >= 1)
            v.require(s[2 + a] >= (ks[a] - 1) * di[a] + 1 if (auto is None or auto == 'VALID') else s[2 + a] >= di[a])
            v.require((ext[a][0] - 1) * st[a] - ext[a][1] < s[2 + a])

        def define(m, xs):
            def e(*i):
                best, some = xs[0](*(i[:2] + tuple(0 for _ in range(nd)))), False
                for j in itertools.product(*[range(k) for k in ks]):
                    q = [i[2 + a] * st[a] + j[a] * di[a] - ext[a][1] for a in range(nd)]
                    ok = alland([And(x >= 0, x < s[2 + a]) for a, x in enumerate(q)])
                    if v.native:
                        if ok:
                            x = xs[0](*(i[:2] + tuple(q)))
                            best, some = (x if not some or x > best else best), True
                    else:
                        x = xs[0](*(i[:2] + tuple(q)))
                        best = m.ite(And(ok, Or(Not(some), x > best)), x, best)
                        some = Or(some, ok)
                return best
            return [(s[:2] + [x for x, _ in ext], True, dt, e)]
        return value_case(v, 'MaxPool', [In(s, dt)], define, at)
    return fn


def windows(tier):
    full = tier == 'thorough'
    for cin, ks, kw in [(1, (1, 1), {}), (2, (1, 1), {'bias': True}), (1, (2, 1), {'pads': True}), (1, (1, 2), {'strides': (1, 2), 'bias': True}), (1, (2, 2), {'auto': 'SAME_UPPER'}),
                        (1, (2, 1), {'auto': 'SAME_LOWER', 'strides': (2, 1)}), (2, (1, 2), {'auto': 'VALID', 'dil': (1, 2)}), (1, (2, 2), {'pads': True, 'strides': (2, 1)})]:
        yield 'Conv/%d channels/kernel %s%s' % (cin, list(ks), ''.join('/%s %s' % x for x in kw.items())), conv2d(cin, ks, **kw)
    for nd, ks, kw in [(1, (2,), {}), (1, (3,), {'strides': (2,), 'pads': True}), (2, (2, 2), {}), (2, (2, 2), {'strides': (2, 1), 'pads': True}), (2, (2, 2), {'auto': 'SAME_UPPER'}), (2, (1, 2), {'auto': 'SAME_LOWER', 'strides': (1, 2)}),
                       (2, (2, 1), {'auto': 'VALID', 'dil': (2, 1)}), (1, (2,), {'strides': (2,), 'ceil_mode': 1}), (3, (1, 2, 1), {}), (1, (3,), {'dil': (2,), 'pads': True}), (1, (3,), {'auto': 'SAME_UPPER', 'dil': (2,)})]:
        yield 'MaxPool/kernel %s%s' % (list(ks), ''.join('/%s %s' % x for x in kw.items())), max_pool(nd, ks, **kw)


NOT_PROVIDED = [('LogSoftmax', [In([2, 3], F)], {'axis': 1}), ('ScatterElements', [In([3], F), In([1], I64, fixed=[0]), In([1], F)], {}), ('TopK', [In([3], F), In([1], I64, fixed=[1])], {'axis': 0}),
                ('DepthToSpace', [In([1, 4, 2, 2], F)], {'blocksize': 2}), ('ConvTranspose', [In([1, 1, 2, 2], F), In([1, 1, 2, 2], F)], {}), ('AveragePool', [In([1, 1, 3, 3], F)], {'kernel_shape': [2, 2]}),
                ('LSTM', [In([1, 1, 2], F), In([1, 4, 2], F), In([1, 4, 1], F)], {'hidden_size': 1}), ('LayerNormalization', [In([2, 3], F), In([3], F)], {}),
                ('InstanceNormalization', [In([1, 2, 3], F), In([2], F), In([2], F)], {}), ('LRN', [In([1, 2, 3, 3], F)], {'size': 3}), ('PRelu', [In([2, 3], F), In([3], F)], {}),
                ('QLinearMatMul', [In([2, 2], U8)] + [In([], F)] + [In([], U8)] + [In([2, 2], U8)] + [In([], F), In([], U8)] * 2, {}),
                ('ConvInteger', [In([1, 1, 2, 2], U8), In([1, 1, 1, 1], U8)], {}),
                ('QLinearConv', [In([1, 1, 2, 2], U8), In([], F), In([], U8), In([1, 1, 1, 1], U8), In([], F), In([], U8), In([], F), In([], U8)], {}),
                ('LpNormalization', [In([2, 3], F)], {'axis': 1, 'p': 2}), ('Gelu', [In([2, 3], F)], {}), ('Silu', [In([2, 3], F)], {}), ('Hardmax', [In([2, 3], F)], {'axis': 1}),
                ('GridSample', [In([1, 1, 2, 2], F), In([1, 2, 2, 2], F)], {}), ('Resize', [In([1, 1, 2], F), In([0], F), In([3], F, fixed=[1, 1, 2])], {'mode': b'nearest'}),
                ('Upsample', [In([1, 1, 2, 2], F), In([4], F, fixed=[1, 1, 2, 2])], {'mode': b'nearest'}), ('Einsum', [In([2, 3], F), In([3, 2], F)], {'equation': b'ij,jk->ik'}),
                ('RoiAlign', [In([1, 1, 4, 4], F), In([1, 4], F), In([1], I64, fixed=[0])], {'output_height': 2, 'output_width': 2}),
                ('GRU', [In([1, 1, 2], F), In([1, 3, 2], F), In([1, 3, 1], F)], {'hidden_size': 1}), ('QuantizeLinear', [In([3], F), In([], F), In([], U8)], {}),
                ('DequantizeLinear', [In([3], U8), In([], F), In([], U8)], {}), ('RandomNormalLike', [In([2, 3], F)], {}),
                ('NonMaxSuppression', [In([1, 2, 4], F), In([1, 1, 2], F)], {}), ('Sinh', [In([3], F)], {}), ('Unknown', [In([3], F)], {}),
                ('Conv', [In([1, 2, 3, 3], F), In([2, 1, 2, 2], F)], {'group': 2}), ('Conv', [In([1, 1, 3], F), In([1, 1, 2], F)], {}), ('Conv', [In([1, 1, 2, 2, 2], F), In([1, 1, 1, 1, 1], F)], {})]


def absent(tier):
    for op, ins, at in NOT_PROVIDED:
        yield 'not provided/%s/rank %d' % (op, len(ins[0].shape)), not_provided(op, ins, at, 2 if op == 'TopK' else 1)
    yield 'not provided/MaxPool with indices', not_provided('MaxPool', [In([1, 1, 3], F)], {'kernel_shape': [2]}, 2)


# ------------------------------------------------------------------ whole graphs
def graph_values(ops, slots, consts=1):
    """a value inference run over every wiring: each graph output is what the nodes it depends on compute from the inputs"""
    def fn(v):
        from .smallgraph import Wiring
        from .c09 import load
        w = Wiring(v, slots, ops=ops, consts=consts, inputs=1)
        m = helpers(v)
        x = v.values('x', [2, 3], F)
        made = {o[0]: (op, ins) for _, op, ins, o in w.nodes}

        def value(t, i):
            if t in w.gin:
                return m.get(x, F, i)
            if t not in made:
                return 1.
            op, ins = made[t]
            a = [value(u, i) for u in ins]
            return {'Sub': lambda: a[0] - a[1], 'Mul': lambda: a[0] * a[1], 'Add': lambda: a[0] + a[1], 'Neg': lambda: -a[0], 'Max': lambda: m.ite(a[0] >= a[1], a[0], a[1]),
                    'Relu': lambda: m.ite(a[0] > 0, a[0], 0)}[op]()

        def run():
            g = load(w)
            y = g.value_infer({'x': x})
            r = {'count': len(y), 'values': []}
            for t, a in zip(list(g.output), y):
                if v.native:
                    r['values'].append(bool(list(np.shape(a)) == [2, 3] and all(m.eq(F, np.asarray(a)[i].item(), float(value(t, i))) for i in np.ndindex(2, 3))))
                else:
                    from pyvc import vals
                    a = vals.table(a)
                    r['values'].append(v.everywhere([2, 3], lambda *i: m.eq(F, m.get(a, F, i), m.conv(F, value(t, i)))))
            return r
        return Case(run, {'count': len(w.outs), 'values': [True] * len(w.outs)}, False, w.text())
    return fn


def graphs(tier):
    yield 'graph/Sub,Mul', graph_values(['Sub', 'Mul'], [2, 2])
    yield 'graph/Sub,Sub,Neg', graph_values(['Sub', 'Sub', 'Neg'], [2, 2, 1])
    yield 'graph/Neg,Max,Sub', graph_values(['Neg', 'Max', 'Sub'], [1, 2, 2])
    if tier == 'thorough':
        yield 'graph/Sub,Mul,Sub', graph_values(['Sub', 'Mul', 'Sub'], [2, 2, 2])
        yield 'graph/Sub,Relu,Neg,Sub', graph_values(['Sub', 'Relu', 'Neg', 'Sub'], [2, 1, 1, 2])


def entries(tier):
    for fam in (pointwise, moving, folding, selecting, windows, absent, graphs):
        for name, fn in fam(tier):
            yield Entry(name, ['C05'], fn, 'listed ranks')
