"""Random single-operator ONNX models, one generator per operator, with the ONNX
reference evaluator as oracle for output shape, element type and values."""
import numpy as np
import onnx
from onnx import helper as oh, TensorProto as TP
from onnx.reference import ReferenceEvaluator

from .core import quiet, short

DT = {np.dtype(np.float32): TP.FLOAT, np.dtype(np.float64): TP.DOUBLE, np.dtype(np.float16): TP.FLOAT16,
      np.dtype(np.int32): TP.INT32, np.dtype(np.int64): TP.INT64, np.dtype(np.int8): TP.INT8,
      np.dtype(np.uint8): TP.UINT8, np.dtype(np.int16): TP.INT16, np.dtype(np.uint16): TP.UINT16,
      np.dtype(np.bool_): TP.BOOL}


class Case:
    def __init__(self, op, inputs, attrs=None, n_out=1, opset=17, static=(), tag=''):
        self.op, self.inputs, self.attrs = op, inputs, dict(attrs or {})
        self.n_out, self.opset, self.static, self.tag = n_out, opset, set(static), tag

    def sig(self):
        return (self.op, self.opset, tuple((None if i is None else (i.shape, str(i.dtype)) for i in self.inputs)),
                tuple(sorted((k, repr(v)) for k, v in self.attrs.items())),
                tuple((k, self.inputs[k].tolist()) for k in sorted(self.static)
                      if self.inputs[k] is not None and self.inputs[k].size < 40))

    def describe(self):
        return {'op': self.op, 'opset': self.opset, 'n_out': self.n_out,
                'attrs': {k: repr(v) for k, v in self.attrs.items()},
                'inputs': [None if i is None else {'shape': list(i.shape), 'dtype': str(i.dtype),
                                                   'data': i.reshape(-1).tolist() if i.size <= 4096 else '...'}
                           for i in self.inputs],
                'static': sorted(self.static)}

    def model(self, declared=True, all_static=False):
        names = ['' if a is None else 'i%d' % k for k, a in enumerate(self.inputs)]
        outs = ['o%d' % k for k in range(self.n_out)]
        node = oh.make_node(self.op, names, outs, name='n0', **self.attrs)
        ins, inits = [], []
        for k, a in enumerate(self.inputs):
            if a is None:
                continue
            if all_static or k in self.static:
                inits.append(onnx.numpy_helper.from_array(np.ascontiguousarray(a).reshape(a.shape), names[k]))
            else:
                ins.append(oh.make_tensor_value_info(names[k], DT[a.dtype], list(a.shape)))
        g = oh.make_graph([node], 'g', ins, [oh.make_value_info(o, oh.TypeProto()) if False else
                                             oh.make_tensor_value_info(o, TP.FLOAT, None) for o in outs], inits)
        return oh.make_model(g, opset_imports=[oh.make_opsetid('', self.opset)], ir_version=8)

    def feeds(self):
        return {'i%d' % k: a for k, a in enumerate(self.inputs) if a is not None and k not in self.static}

    def reference(self):
        m = self.model()
        with quiet():
            return ReferenceEvaluator(m).run(None, self.feeds())


def R(rng, lo, hi):
    return int(rng.integers(lo, hi + 1))


def rshape(rng, lo=0, hi=4, dmin=1, dmax=5):
    return tuple(R(rng, dmin, dmax) for _ in range(R(rng, lo, hi)))


def rarr(rng, shape, dtype=np.float32, lo=-4, hi=4):
    dtype = np.dtype(dtype)
    if dtype == np.bool_:
        return rng.integers(0, 2, shape).astype(np.bool_)
    if dtype.kind == 'f':
        return (rng.uniform(lo, hi, shape)).astype(dtype)
    if dtype.kind == 'u':
        return rng.integers(0, 2 * hi + 1, shape).astype(dtype)
    return rng.integers(lo, hi + 1, shape).astype(dtype)


def bshapes(rng, n, zero=False):
    """n mutually broadcastable shapes"""
    r = R(rng, 0, 4)
    full = [R(rng, 0 if zero and rng.random() < .2 else 1, 4) for _ in range(r)]
    out = []
    for _ in range(n):
        keep = R(rng, 0, r)
        s = full[r - keep:]
        out.append(tuple(1 if rng.random() < .35 else d for d in s))
    if rng.random() < .6:
        out[R(rng, 0, n - 1)] = tuple(full)
    return out


FLOATS = [np.float32, np.float32, np.float64]
NUMS = [np.float32, np.float32, np.float64, np.int32, np.int64]


def pick(rng, xs):
    return xs[R(rng, 0, len(xs) - 1)]


# ------------------------------------------------------------------ elementwise, several inputs
def g_binary(op, dts=NUMS, nz=False, pos=False, attrs=None):
    def gen(rng, zero=True):
        a, b = bshapes(rng, 2, zero)
        dt = pick(rng, dts)
        x, y = rarr(rng, a, dt), rarr(rng, b, dt)
        if nz:
            y = np.where(y == 0, np.asarray(3, dt), y).astype(dt)
        if pos:
            x = np.abs(x) + np.asarray(1, dt)
            y = np.mod(np.abs(y), np.asarray(3, dt)).astype(dt)
        at = attrs(rng, dt) if attrs else None
        return Case(op, [x.astype(dt), y.astype(dt)], at)
    return gen


def g_variadic(op, dts=NUMS, lo=1, hi=4):
    def gen(rng, zero=True):
        n = R(rng, lo, hi)
        dt = pick(rng, dts)
        return Case(op, [rarr(rng, s, dt) for s in bshapes(rng, n, zero)])
    return gen


def g_where(rng, zero=True):
    a, b, c = bshapes(rng, 3, zero)
    dt = pick(rng, NUMS)
    return Case('Where', [rarr(rng, a, np.bool_), rarr(rng, b, dt), rarr(rng, c, dt)])


BROADCAST = {
    'Add': g_binary('Add'), 'Sub': g_binary('Sub'), 'Mul': g_binary('Mul'),
    'Div': g_binary('Div', dts=FLOATS + [np.int64, np.int32], nz=True), 'Pow': g_binary('Pow', dts=[np.float32, np.float64], pos=True),
    'Mod': g_binary('Mod', dts=[np.int32, np.int64], nz=True),
    'Less': g_binary('Less'), 'LessOrEqual': g_binary('LessOrEqual'), 'Greater': g_binary('Greater'),
    'GreaterOrEqual': g_binary('GreaterOrEqual'), 'Equal': g_binary('Equal'),
    'And': g_binary('And', dts=[np.bool_]), 'Or': g_binary('Or', dts=[np.bool_]), 'Xor': g_binary('Xor', dts=[np.bool_]),
    'Where': g_where, 'Sum': g_variadic('Sum', FLOATS, 2), 'Min': g_variadic('Min', NUMS, 2), 'Max': g_variadic('Max', NUMS, 2),
}


# ------------------------------------------------------------------ unary
def g_unary(op, dts=FLOATS, attrs=None, pos=False, opset=17):
    def gen(rng, zero=True):
        s = rshape(rng, 0, 4, 0 if zero and rng.random() < .15 else 1)
        dt = pick(rng, dts)
        x = rarr(rng, s, dt)
        if pos:
            x = (np.abs(x) + np.asarray(.5, dt)).astype(dt)
        at = attrs(rng, s) if attrs else None
        return Case(op, [x], at, opset=opset)
    return gen


def a_alpha(rng, s):
    return {} if rng.random() < .4 else {'alpha': float(np.float32(rng.uniform(.05, 1.5)))}


def a_hs(rng, s):
    return {} if rng.random() < .4 else {'alpha': float(np.float32(rng.uniform(.05, .5))), 'beta': float(np.float32(rng.uniform(.1, .9)))}


def g_softmax(op):
    def gen(rng, zero=False):
        s = rshape(rng, 1, 4)
        at = {}
        at['axis'] = R(rng, -len(s), len(s) - 1)
        return Case(op, [rarr(rng, s, pick(rng, FLOATS))], at)
    return gen


def g_clip(rng, zero=True):
    s = rshape(rng, 0, 4, 0 if zero and rng.random() < .1 else 1)
    dt = pick(rng, NUMS)
    lo = None if rng.random() < .25 else np.asarray(R(rng, -3, 0), dt)
    hi = None if rng.random() < .25 else np.asarray(R(rng, 1, 3), dt)
    return Case('Clip', [rarr(rng, s, dt), lo, hi], static=[k for k, v in ((1, lo), (2, hi)) if v is not None])


def g_prelu(rng, zero=False):
    s = rshape(rng, 1, 4)
    keep = R(rng, 0, len(s))
    sl = tuple(1 if rng.random() < .4 else d for d in s[len(s) - keep:])
    return Case('PRelu', [rarr(rng, s), rarr(rng, sl)])


def g_cumsum(rng, zero=False):
    s = rshape(rng, 1, 4)
    return Case('CumSum', [rarr(rng, s, pick(rng, NUMS)), np.asarray(R(rng, -len(s), len(s) - 1), np.int64)], static=[1])


UNARY = {
    'Neg': g_unary('Neg', NUMS), 'Abs': g_unary('Abs', NUMS), 'Ceil': g_unary('Ceil'), 'Floor': g_unary('Floor'),
    'Round': g_unary('Round'), 'Exp': g_unary('Exp'), 'Log': g_unary('Log', pos=True), 'Sqrt': g_unary('Sqrt', pos=True),
    'Sin': g_unary('Sin'), 'Cos': g_unary('Cos'), 'Sigmoid': g_unary('Sigmoid'), 'Tanh': g_unary('Tanh'),
    'Atan': g_unary('Atan'), 'Sign': g_unary('Sign', NUMS), 'Relu': g_unary('Relu'), 'Elu': g_unary('Elu', attrs=a_alpha),
    'LeakyRelu': g_unary('LeakyRelu', attrs=a_alpha), 'HardSigmoid': g_unary('HardSigmoid', attrs=a_hs),
    'HardSwish': g_unary('HardSwish'), 'Softplus': g_unary('Softplus'), 'Reciprocal': g_unary('Reciprocal', pos=True),
    'Erf': g_unary('Erf'), 'Not': g_unary('Not', [np.bool_]), 'Identity': g_unary('Identity', NUMS + [np.bool_]),
    'Softmax': g_softmax('Softmax'), 'LogSoftmax': g_softmax('LogSoftmax'), 'Clip': g_clip, 'PRelu': g_prelu, 'CumSum': g_cumsum,
}


# ------------------------------------------------------------------ layout
def g_transpose(rng, zero=True):
    s = rshape(rng, 1, 5, 0 if zero and rng.random() < .1 else 1)
    at = {} if rng.random() < .2 else {'perm': [int(v) for v in rng.permutation(len(s))]}
    return Case('Transpose', [rarr(rng, s, pick(rng, NUMS))], at)


def g_concat(rng, zero=True):
    s = list(rshape(rng, 1, 4))
    ax = R(rng, 0, len(s) - 1)
    dt = pick(rng, NUMS)
    ins = []
    for _ in range(R(rng, 1, 4)):
        t = list(s)
        t[ax] = R(rng, 0 if zero else 1, 4)
        ins.append(rarr(rng, t, dt))
    return Case('Concat', ins, {'axis': ax if rng.random() < .6 else ax - len(s)})


def factorize(rng, n, k):
    out = [1] * k
    f, m = 2, n
    while m > 1:
        while m % f == 0:
            out[R(rng, 0, k - 1)] *= f
            m //= f
        f += 1
    return out


def g_reshape(rng, zero=False):
    s = rshape(rng, 1, 4, 1, 6)
    n = int(np.prod(s))
    t = factorize(rng, n, R(rng, 1, 4))
    u = rng.random()
    tgt = list(t)
    if u < .5:
        tgt[R(rng, 0, len(t) - 1)] = -1
    if u > .3:
        for i in range(len(tgt)):
            if i < len(s) and tgt[i] == s[i] and rng.random() < .7:
                tgt[i] = 0
    if u > .8:  # keep a prefix by zeros, then -1
        k = R(rng, 0, len(s) - 1)
        tgt = [0] * k + [-1]
    return Case('Reshape', [rarr(rng, s, pick(rng, NUMS)), np.asarray(tgt, np.int64)], static=[1])


def g_flatten(rng, zero=False):
    s = rshape(rng, 1, 4)
    at = {} if rng.random() < .3 else {'axis': R(rng, -len(s), len(s))}
    return Case('Flatten', [rarr(rng, s)], at)


def g_squeeze(rng, zero=False):
    s = [1 if rng.random() < .5 else d for d in rshape(rng, 1, 5, 1, 4)]
    ones = [i for i, d in enumerate(s) if d == 1]
    if not ones:
        s[0], ones = 1, [0]
    k = R(rng, 1, len(ones))
    ax = [int(v) for v in rng.permutation(ones)[:k]]
    ax = [a - len(s) if rng.random() < .4 else a for a in ax]
    if rng.random() < .12:
        return Case('Squeeze', [rarr(rng, s)], {}, opset=13)
    if rng.random() < .3:
        return Case('Squeeze', [rarr(rng, s)], {'axes': [a % len(s) for a in ax]}, opset=11)
    return Case('Squeeze', [rarr(rng, s), np.asarray(ax, np.int64)], {}, opset=13, static=[1])


def g_unsqueeze(rng, zero=False):
    s = rshape(rng, 0, 3)
    k = R(rng, 1, 3)
    r = len(s) + k
    ax = [int(v) for v in rng.permutation(r)[:k]]
    ax = [a - r if rng.random() < .4 else a for a in ax]
    if rng.random() < .3:
        return Case('Unsqueeze', [rarr(rng, s)], {'axes': ax}, opset=11)
    return Case('Unsqueeze', [rarr(rng, s), np.asarray(ax, np.int64)], {}, opset=13, static=[1])


def g_slice(rng, zero=True):
    s = rshape(rng, 1, 5, 1, 6)
    r = len(s)
    k = R(rng, 1, r)
    ax = [int(v) for v in rng.permutation(r)[:k]]
    mode = R(rng, 0, 5)
    if mode == 0:  # no axes: starts cover leading axes
        ax = list(range(k))
    st, en, sp = [], [], []
    for a in ax:
        d = s[a]
        neg = mode >= 4 and rng.random() < .5
        u = rng.random()
        if neg:
            st.append(R(rng, -d - 1, d + 1) if u < .8 else 2 ** 31 - 1)
            en.append(R(rng, -d - 2, d) if u < .8 else -2 ** 31)
            sp.append(-R(rng, 1, 3))
        else:
            st.append(R(rng, -d - 1, d + 1))
            en.append(R(rng, -d - 1, d + 2) if u < .7 else 2 ** 31 - 1)
            sp.append(1 if mode < 3 else R(rng, 1, 3))
    nax = [a - r if rng.random() < .3 else a for a in ax]
    it = pick(rng, [np.int64, np.int32])
    A = lambda v: np.asarray(v, it)
    x = rarr(rng, s, pick(rng, NUMS))
    if mode == 0:
        return Case('Slice', [x, A(st), A(en)], static=[1, 2], opset=13)
    if mode == 1:
        return Case('Slice', [x], {'starts': st, 'ends': en, 'axes': [a % r for a in ax]}, opset=9)
    if mode == 2:
        return Case('Slice', [x, A(st), A(en), A(nax)], static=[1, 2, 3], opset=13)
    return Case('Slice', [x, A(st), A(en), A(nax), A(sp)], static=[1, 2, 3, 4], opset=13)


def g_gather(rng, zero=False):
    s = rshape(rng, 1, 4)
    ax = R(rng, -len(s), len(s) - 1)
    ix = rshape(rng, 0, 3, 1, 3)
    at = {} if ax == 0 and rng.random() < .5 else {'axis': ax}
    return Case('Gather', [rarr(rng, s, pick(rng, NUMS)), rng.integers(-s[ax], s[ax], ix).astype(pick(rng, [np.int64, np.int32]))], at)


def g_gather_el(rng, zero=False):
    s = rshape(rng, 1, 4)
    ax = R(rng, -len(s), len(s) - 1)
    t = list(s)
    t[ax] = R(rng, 1, 4)
    return Case('GatherElements', [rarr(rng, s, pick(rng, NUMS)), rng.integers(-s[ax], s[ax], t).astype(np.int64)], {'axis': ax})


def g_gathernd(rng, zero=False):
    s = rshape(rng, 1, 4)
    q = R(rng, 1, len(s))
    b = rshape(rng, 0, 2, 1, 3)
    idx = np.stack([rng.integers(-s[i], s[i], b) for i in range(q)], -1).astype(np.int64)
    return Case('GatherND', [rarr(rng, s, pick(rng, NUMS)), idx], opset=13)


def g_scatternd(rng, zero=False):
    s = rshape(rng, 1, 4)
    q = R(rng, 1, len(s))
    tot = int(np.prod(s[:q]))
    k = R(rng, 1, tot)
    flat = rng.permutation(tot)[:k]
    idx = np.stack(np.unravel_index(flat, s[:q]), -1).astype(np.int64).reshape(k, q)
    dt = pick(rng, NUMS)
    return Case('ScatterND', [rarr(rng, s, dt), idx, rarr(rng, (k,) + tuple(s[q:]), dt)], opset=13)


def g_scatterel(rng, zero=False):
    s = rshape(rng, 1, 3)
    ax = R(rng, -len(s), len(s) - 1)
    t = list(s)
    t[ax] = R(rng, 1, s[ax])
    idx = np.argsort(rng.random(s), axis=ax).take(range(t[ax]), axis=ax).astype(np.int64)
    return Case('ScatterElements', [rarr(rng, s), idx, rarr(rng, t)], {'axis': ax}, opset=13)


def g_split(rng, zero=False):
    s = list(rshape(rng, 1, 4, 1, 7))
    ax = R(rng, 0, len(s) - 1)
    n = R(rng, 1, 4)
    at = {'axis': ax if rng.random() < .6 else ax - len(s)}
    if ax == 0 and rng.random() < .3:
        at = {}
    dt = pick(rng, NUMS)
    u = rng.random()
    if u < .35:
        s[ax] = n * R(rng, 1, 3)
        return Case('Split', [rarr(rng, s, dt)], at, n_out=n, opset=13)
    parts = [R(rng, 1, 4) for _ in range(n)]
    s[ax] = sum(parts)
    if u < .6:
        at['split'] = parts
        return Case('Split', [rarr(rng, s, dt)], at, n_out=n, opset=11)
    return Case('Split', [rarr(rng, s, dt), np.asarray(parts, np.int64)], at, n_out=n, opset=13, static=[1])


def g_pad(rng, zero=False):
    s = rshape(rng, 1, 4, 2, 5)
    r = len(s)
    mode = pick(rng, ['constant', 'constant', 'reflect', 'edge'])
    pads = [R(rng, 0, 1 if mode == 'reflect' else 3) for _ in range(2 * r)]
    dt = pick(rng, FLOATS)
    at = {} if mode == 'constant' and rng.random() < .5 else {'mode': mode}
    if rng.random() < .3:
        at['pads'] = pads
        if mode == 'constant' and rng.random() < .5:
            at['value'] = 1.5
        return Case('Pad', [rarr(rng, s, np.float32)], at, opset=10)
    ins = [rarr(rng, s, dt), np.asarray(pads, np.int64)]
    if mode == 'constant' and rng.random() < .6:
        ins.append(np.asarray(2.5, dt))
    if rng.random() < .3:
        ax = [int(a) for a in rng.permutation(r)[:R(rng, 1, r)]]
        ins[1] = np.asarray([pads[a + k] for k in (0, r) for a in ax], np.int64)
        ins += [None] * (3 - len(ins)) + [np.asarray([a - r if rng.random() < .4 else a for a in ax], np.int64)]
        return Case('Pad', ins, at, opset=18, static=[k for k in range(1, 4) if ins[k] is not None])
    return Case('Pad', ins, at, opset=13, static=list(range(1, len(ins))))


def g_expand(rng, zero=False):
    a, b = bshapes(rng, 2, False)
    if len(b) == 0:
        b = (1,)
    return Case('Expand', [rarr(rng, a, pick(rng, NUMS)), np.asarray(b, np.int64)], static=[1])


def g_tile(rng, zero=False):
    s = rshape(rng, 1, 4, 1, 3)
    return Case('Tile', [rarr(rng, s, pick(rng, NUMS)), np.asarray([R(rng, 1, 3) for _ in s], np.int64)], static=[1])


def g_reduce(op, input_axes_from=18, dts=FLOATS):
    def gen(rng, zero=False):
        s = rshape(rng, 1, 4)
        k = R(rng, 1, len(s))
        ax = [int(v) for v in rng.permutation(len(s))[:k]]
        ax = [a - len(s) if rng.random() < .4 else a for a in ax]
        at = {} if rng.random() < .3 else {'keepdims': R(rng, 0, 1)}
        x = rarr(rng, s, pick(rng, dts))
        u = rng.random()
        as_input = (input_axes_from == 13)
        if u < .1:
            if rng.random() < .5:
                at['noop_with_empty_axes'] = R(rng, 0, 1)
            return Case(op, [x, np.asarray([], np.int64)], at, opset=13 if as_input else 18, static=[1])
        if u < .2:
            return Case(op, [x], at, opset=13 if as_input or not input_axes_from or rng.random() < .5 else 18)
        if as_input or (u < .5 and input_axes_from):
            return Case(op, [x, np.asarray(ax, np.int64)], at, opset=13 if as_input else 18, static=[1])
        at['axes'] = ax
        return Case(op, [x], at, opset=11)
    return gen


def g_argmax(rng, zero=False):
    s = rshape(rng, 1, 4)
    at = {}
    if rng.random() < .8:
        at['axis'] = R(rng, -len(s), len(s) - 1)
    if rng.random() < .7:
        at['keepdims'] = R(rng, 0, 1)
    n = int(np.prod(s))
    return Case('ArgMax', [rng.permutation(n).reshape(s).astype(np.float32)], at, opset=13)


def g_topk(rng, zero=False):
    s = rshape(rng, 1, 4)
    ax = R(rng, -len(s), len(s) - 1)
    at = {'axis': ax}
    if ax == len(s) - 1 and rng.random() < .3:
        ax, at = -1, {}
    n = int(np.prod(s))
    return Case('TopK', [rng.permutation(n).reshape(s).astype(np.float32), np.asarray([R(rng, 1, s[ax])], np.int64)], at,
                n_out=2, opset=11, static=[1])


def g_onehot(rng, zero=False):
    s = rshape(rng, 1, 3)
    d = R(rng, 1, 5)
    at = {} if rng.random() < .3 else {'axis': R(rng, -len(s) - 1, len(s))}
    dep = np.asarray(d, np.int64) if rng.random() < .5 else np.asarray([d], np.int64)
    vals = np.asarray([0, 1], np.float32) if rng.random() < .4 else rarr(rng, (2,), pick(rng, [np.float32, np.int64, np.int32]))
    return Case('OneHot', [rng.integers(-d, d, s).astype(np.int64), dep, vals], at, opset=11, static=[1, 2])


def g_resize(op='Resize'):
    def gen(rng, zero=False):
        s = (R(rng, 1, 2), R(rng, 1, 3), R(rng, 1, 6), R(rng, 1, 6))
        mode = pick(rng, ['nearest', 'linear', 'cubic'])
        x = rarr(rng, s)
        sc = np.asarray([1, 1, pick(rng, [1, 2, 3, 1.5, .5, 2.5]), pick(rng, [1, 2, 3, 1.5, .5, 2.5])], np.float32)
        if any(int(a * b) < 1 for a, b in zip(s, sc)):
            sc = np.asarray([1, 1, 2, 2], np.float32)
        if op == 'Upsample':
            sc = np.maximum(sc, 1)
            return Case('Upsample', [x, sc], {'mode': 'nearest'}, opset=9, static=[1])
        u = rng.random()
        if u < .2:
            axes = pick(rng, [[2, 3], [3, 2], [-1], [-2, -1], [2]])
            if rng.random() < .5:
                return Case('Resize', [x, None, sc[axes]], {'mode': mode, 'axes': axes}, opset=18, static=[2])
            return Case('Resize', [x, None, None, np.asarray([R(rng, 1, 9) for _ in axes], np.int64)], {'mode': mode, 'axes': axes}, opset=18, static=[3])
        if u < .5:
            return Case('Resize', [x, None, sc], {'mode': mode}, opset=13, static=[2])
        u = rng.random()
        if u < .5:
            return Case('Resize', [x, None, sc], {'mode': mode}, opset=13, static=[2])
        sz = np.asarray([s[0], s[1], R(rng, 1, 9), R(rng, 1, 9)], np.int64)
        return Case('Resize', [x, None, None, sz], {'mode': mode}, opset=13, static=[3])
    return gen


def g_d2s(rng, zero=False):
    b = R(rng, 1, 3)
    s = (R(rng, 1, 2), b * b * R(rng, 1, 3), R(rng, 1, 4), R(rng, 1, 4))
    at = {'blocksize': b}
    if rng.random() < .5:
        at['mode'] = pick(rng, ['DCR', 'CRD'])
    return Case('DepthToSpace', [rarr(rng, s)], at, opset=13)


def g_cos(rng, zero=True):
    s = np.asarray(rshape(rng, 1, 4), np.int64)
    at = {}
    if rng.random() < .7:
        dt = pick(rng, [np.float32, np.int64, np.int32])
        at = {'value': onnx.numpy_helper.from_array(rarr(rng, (1,), dt), 'v')}
    return Case('ConstantOfShape', [s], at, static=[0])


def g_range(rng, zero=True):
    dt = pick(rng, [np.int64, np.int32, np.float32])
    st, d = R(rng, -5, 5), pick(rng, [-3, -2, -1, 1, 2, 3])
    return Case('Range', [np.asarray(st, dt), np.asarray(st + d * R(rng, 0, 6) + R(rng, 0, 1), dt), np.asarray(d, dt)], static=[0, 1, 2])


def g_shape(rng, zero=True):
    return Case('Shape', [rarr(rng, rshape(rng, 0, 5, 0 if zero else 1), pick(rng, NUMS))], opset=13)


def g_cast(rng, zero=True):
    to = pick(rng, [TP.FLOAT, TP.DOUBLE, TP.INT32, TP.INT64, TP.BOOL, TP.FLOAT16, TP.INT8, TP.UINT8, TP.INT16, TP.UINT16, TP.UINT32, TP.UINT64])
    x = rarr(rng, rshape(rng, 0, 4), pick(rng, NUMS))
    return Case('Cast', [np.abs(x) if to in (TP.UINT8, TP.UINT16, TP.UINT32, TP.UINT64) else x], {'to': to}, opset=13)


def g_tril(rng, zero=False):
    s = rshape(rng, 2, 4)
    ins = [rarr(rng, s, pick(rng, NUMS))]
    if rng.random() < .6:
        ins.append(np.asarray(R(rng, -3, 3), np.int64))
    at = {} if rng.random() < .3 else {'upper': R(rng, 0, 1)}
    return Case('Trilu', ins, at, opset=14, static=[1] if len(ins) == 2 else [])


def g_compress(rng, zero=False):
    s = rshape(rng, 1, 4)
    if rng.random() < .3:
        n = R(rng, 1, int(np.prod(s)))
        return Case('Compress', [rarr(rng, s), rarr(rng, (n,), np.bool_)], {}, static=[1])
    ax = R(rng, -len(s), len(s) - 1)
    return Case('Compress', [rarr(rng, s), rarr(rng, (R(rng, 1, s[ax]),), np.bool_)], {'axis': ax}, static=[1])


def g_nonzero(rng, zero=False):
    x = rarr(rng, rshape(rng, 1, 4), np.int32, 0, 2)
    if not x.any():
        x = np.ones_like(x)
    return Case('NonZero', [x], static=[0])


def g_dropout(rng, zero=False):
    n = R(rng, 1, 2)
    return Case('Dropout', [rarr(rng, rshape(rng, 1, 4))], {}, n_out=n, opset=13)


def g_gridsample(rng, zero=False):
    s = (R(rng, 1, 2), R(rng, 1, 3), R(rng, 2, 4), R(rng, 2, 4))
    return Case('GridSample', [rarr(rng, s), rarr(rng, (s[0], R(rng, 1, 4), R(rng, 1, 4), 2), np.float32, -1, 1)], {}, opset=16)


def g_roialign(rng, zero=False):
    n = R(rng, 1, 4)
    s = (R(rng, 1, 2), R(rng, 1, 3), R(rng, 4, 6), R(rng, 4, 6))
    rois = np.sort(rng.uniform(0, 3, (n, 4)).astype(np.float32), axis=1)
    return Case('RoiAlign', [rarr(rng, s), rois, rng.integers(0, s[0], n).astype(np.int64)],
                {'output_height': R(rng, 1, 4), 'output_width': R(rng, 1, 4), 'sampling_ratio': 2}, opset=16)


def g_constant(rng, zero=True):
    v = rarr(rng, rshape(rng, 0, 3), pick(rng, NUMS))
    return Case('Constant', [], {'value': onnx.numpy_helper.from_array(v, 'v')}, opset=13)


LAYOUT = {
    'Transpose': g_transpose, 'Concat': g_concat, 'Reshape': g_reshape, 'Flatten': g_flatten, 'Squeeze': g_squeeze,
    'Unsqueeze': g_unsqueeze, 'Slice': g_slice, 'Gather': g_gather, 'GatherElements': g_gather_el, 'GatherND': g_gathernd,
    'ScatterND': g_scatternd, 'ScatterElements': g_scatterel, 'Split': g_split, 'Pad': g_pad, 'Expand': g_expand,
    'Tile': g_tile, 'ReduceMean': g_reduce('ReduceMean'), 'ReduceSum': g_reduce('ReduceSum', 13),
    'ReduceMax': g_reduce('ReduceMax'), 'ReduceMin': g_reduce('ReduceMin'), 'ReduceProd': g_reduce('ReduceProd'),
    'ReduceL2': g_reduce('ReduceL2', None), 'ArgMax': g_argmax, 'TopK': g_topk, 'OneHot': g_onehot, 'Resize': g_resize(),
    'Upsample': g_resize('Upsample'), 'DepthToSpace': g_d2s, 'ConstantOfShape': g_cos, 'Range': g_range, 'Shape': g_shape,
    'Cast': g_cast, 'Trilu': g_tril, 'Compress': g_compress, 'NonZero': g_nonzero, 'Dropout': g_dropout,
    'GridSample': g_gridsample, 'RoiAlign': g_roialign, 'Constant': g_constant,
}


# ------------------------------------------------------------------ convolution and pooling
def conv_attrs(rng, nd, sp, ks, transposed=False):
    at = {}
    if rng.random() < .75:
        at['strides'] = [R(rng, 1, 3) for _ in range(nd)]
    if rng.random() < .5:
        at['dilations'] = [R(rng, 1, 2) for _ in range(nd)]
    u = rng.random()
    if u < .65:
        at['pads'] = [R(rng, 0, 2) for _ in range(2 * nd)]
    return at


def g_conv(rng, zero=False, op='Conv'):
    nd = R(rng, 1, 3)
    gr = pick(rng, [1, 1, 2])
    ci, co = gr * R(rng, 1, 2), gr * R(rng, 1, 2)
    ks = [R(rng, 1, 3) for _ in range(nd)]
    sp = [R(rng, 5, 8) if nd < 3 else R(rng, 5, 6) for _ in range(nd)]
    at = conv_attrs(rng, nd, sp, ks)
    if rng.random() < .2 and nd <= 3:
        at.pop('pads', None)
        at['auto_pad'] = pick(rng, ['SAME_UPPER', 'SAME_LOWER', 'VALID', 'NOTSET'])
        if at['auto_pad'].startswith('SAME'):
            at.pop('dilations', None)
    if rng.random() < .7:
        at['kernel_shape'] = ks
    if gr > 1:
        at['group'] = gr
    x = rarr(rng, (R(rng, 1, 2), ci, *sp))
    w = rarr(rng, (co, ci // gr, *ks))
    ins = [x, w]
    if rng.random() < .5:
        ins.append(rarr(rng, (co,)))
    return Case('Conv', ins, at, opset=13, static=range(1, len(ins)))


def g_convt(rng, zero=False):
    nd = R(rng, 1, 3)
    gr = pick(rng, [1, 1, 2])
    ci, co = gr * R(rng, 1, 2), R(rng, 1, 2)
    ks = [R(rng, 1, 4) for _ in range(nd)]
    sp = [R(rng, 2, 4) for _ in range(nd)]
    st = [R(rng, 1, 3) for _ in range(nd)]
    at = {'strides': st}
    if rng.random() < .5:
        at['dilations'] = [R(rng, 1, 2) for _ in range(nd)]
    if rng.random() < .6:
        at['pads'] = [R(rng, 0, 1) for _ in range(2 * nd)]
    if rng.random() < .4:
        at['output_padding'] = [R(rng, 0, s - 1) for s in st]
    if gr > 1:
        at['group'] = gr
    if rng.random() < .6:
        at['kernel_shape'] = ks
    ins = [rarr(rng, (R(rng, 1, 2), ci, *sp)), rarr(rng, (ci, co, *ks))]
    if rng.random() < .4:
        ins.append(rarr(rng, (co * gr,)))
    return Case('ConvTranspose', ins, at, opset=11, static=range(1, len(ins)))


def g_pool(op):
    def gen(rng, zero=False):
        nd = R(rng, 1, 3)
        ks = [R(rng, 1, 3) for _ in range(nd)]
        sp = [R(rng, 5, 9) if nd < 3 else R(rng, 5, 6) for _ in range(nd)]
        at = {'kernel_shape': ks}
        if rng.random() < .8:
            at['strides'] = [R(rng, 1, 3) for _ in range(nd)]
        opset = 12 if op == 'MaxPool' else 19
        if rng.random() < .35:
            at['dilations'] = [R(rng, 1, 2) for _ in range(nd)]
        if rng.random() < .5:
            at['pads'] = [R(rng, 0, k - 1) for k in ks] + [R(rng, 0, k - 1) for k in ks]
        if rng.random() < .4:
            at['ceil_mode'] = R(rng, 0, 1)
        if rng.random() < .2:
            at.pop('pads', None)
            at.pop('ceil_mode', None)
            at.pop('dilations', None)
            at['auto_pad'] = pick(rng, ['SAME_UPPER', 'SAME_LOWER', 'VALID', 'NOTSET'])
        return Case(op, [rarr(rng, (R(rng, 1, 2), R(rng, 1, 3), *sp))], at, opset=opset)
    return gen


def g_gap(rng, zero=False):
    return Case('GlobalAveragePool', [rarr(rng, (R(rng, 1, 2), R(rng, 1, 3), *[R(rng, 1, 5) for _ in range(R(rng, 1, 3))]))])


CONV = {'Conv': g_conv, 'ConvTranspose': g_convt, 'MaxPool': g_pool('MaxPool'), 'AveragePool': g_pool('AveragePool'),
        'GlobalAveragePool': g_gap}


# ------------------------------------------------------------------ contractions and normalisations
def g_matmul(rng, zero=False, dts=FLOATS):
    m, k, n = R(rng, 1, 4), R(rng, 1, 4), R(rng, 1, 4)
    ba, bb = bshapes(rng, 2, False)
    ba, bb = ba[-2:], bb[-2:]
    dt = pick(rng, dts)
    u = rng.random()
    a, b = (*ba, m, k), (*bb, k, n)
    if u < .08:
        a = (k,)
    elif u < .16:
        b = (k,)
    return Case('MatMul', [rarr(rng, a, dt), rarr(rng, b, dt)])


def g_gemm(rng, zero=False):
    m, k, n = R(rng, 1, 4), R(rng, 1, 4), R(rng, 1, 4)
    ta, tb = R(rng, 0, 1), R(rng, 0, 1)
    at = {}
    if ta or rng.random() < .3:
        at['transA'] = ta
    if tb or rng.random() < .3:
        at['transB'] = tb
    if rng.random() < .25:
        at['alpha'] = float(np.float32(rng.uniform(.3, 2)))
    if rng.random() < .25:
        at['beta'] = float(np.float32(rng.uniform(.3, 2)))
    dt = pick(rng, FLOATS)
    ins = [rarr(rng, (k, m) if ta else (m, k), dt), rarr(rng, (n, k) if tb else (k, n), dt)]
    if rng.random() < .6:
        ins.append(rarr(rng, pick(rng, [(n,), (m, n), (1, n), (m, 1), (1,), ()]), dt))
    return Case('Gemm', ins, at, opset=13)


EINS = ['ij,jk->ik', 'bij,bjk->bik', 'bhid,bhjd->bhij', 'bhij,bhjd->bhid', 'i,j->ij', 'ij,ij->', 'ij,jk', 'bij,jk->bik',
        '...ij,...jk->...ik', 'ijk,ikl->jil', 'ab,cb->ac', 'abc,cd->abd', 'i,i->', 'bi,bj->bij', 'ij->ji', 'ijk->k', 'ij->i',
        'i j , j k -> i k', 'abcd,cde->abe', '...a,...a->...']


def g_einsum(rng, zero=False):
    eq = pick(rng, EINS)
    dims = {}
    ins = []
    lhs = eq.replace(' ', '').split('->')[0]
    ell = [R(rng, 1, 3) for _ in range(R(rng, 0, 2))]
    for t in lhs.split(','):
        sh = []
        if '...' in t:
            keep = R(rng, 0, len(ell))
            sh += [1 if rng.random() < .3 else d for d in ell[len(ell) - keep:]]
            t = t.replace('...', '')
        for ch in t:
            dims.setdefault(ch, R(rng, 1, 4))
            sh.append(dims[ch])
        ins.append(rarr(rng, sh))
    return Case('Einsum', ins, {'equation': eq}, opset=12)


def g_lstm(rng, zero=False, op='LSTM', gates=4):
    nd = R(rng, 1, 2)
    T, B, I, H = R(rng, 1, 4), R(rng, 1, 3), R(rng, 1, 3), R(rng, 1, 3)
    at = {'hidden_size': H, 'direction': 'bidirectional' if nd == 2 else pick(rng, ['forward', 'reverse'])}
    nout = R(rng, 1, 3) if op == 'LSTM' else 2
    return Case(op, [rarr(rng, (T, B, I)), rarr(rng, (nd, gates * H, I)), rarr(rng, (nd, gates * H, H)),
                     rarr(rng, (nd, 2 * gates * H))], at, n_out=nout, opset=14, static=[1, 2, 3])


def g_layernorm(rng, zero=False):
    s = rshape(rng, 1, 4)
    ax = R(rng, -len(s), len(s) - 1)
    t = s[ax:] if ax < 0 else s[ax:]
    ins = [rarr(rng, s), rarr(rng, t)]
    if rng.random() < .6:
        ins.append(rarr(rng, t))
    at = {'axis': ax}
    if ax == len(s) - 1 and rng.random() < .5:
        at = {}
    return Case('LayerNormalization', ins, at, opset=17, static=range(1, len(ins)))


def g_bn(rng, zero=False):
    c = R(rng, 1, 4)
    s = (R(rng, 1, 3), c, *[R(rng, 1, 4) for _ in range(R(rng, 0, 3))])
    at = {} if rng.random() < .5 else {'epsilon': float(np.float32(rng.uniform(1e-5, .1)))}
    return Case('BatchNormalization', [rarr(rng, s), rarr(rng, (c,)), rarr(rng, (c,)), rarr(rng, (c,)),
                                       np.abs(rarr(rng, (c,))) + np.float32(.1)], at, opset=15, static=[1, 2, 3, 4])


def g_in(rng, zero=False):
    c = R(rng, 1, 4)
    s = (R(rng, 1, 3), c, *[R(rng, 2, 4) for _ in range(R(rng, 1, 3))])
    return Case('InstanceNormalization', [rarr(rng, s), rarr(rng, (c,)), rarr(rng, (c,))], {}, opset=13, static=[1, 2])


def g_lrn(rng, zero=False):
    s = (R(rng, 1, 2), R(rng, 1, 5), R(rng, 1, 4), R(rng, 1, 4))
    return Case('LRN', [rarr(rng, s)], {'size': pick(rng, [1, 3, 5])}, opset=13)


def g_matmulint(rng, zero=False):
    c = g_matmul(rng)
    while min(len(c.inputs[0].shape), len(c.inputs[1].shape)) < 2:
        c = g_matmul(rng)
    a = rng.integers(0, 9, c.inputs[0].shape).astype(np.uint8)
    b = rng.integers(0, 9, c.inputs[1].shape).astype(np.uint8)
    return Case('MatMulInteger', [a, b], {}, opset=13)


def g_ql(rng, zero=False):
    s = rshape(rng, 1, 4)
    dt = pick(rng, [np.uint8, np.int8])
    return Case('QuantizeLinear', [rarr(rng, s), np.asarray(.05, np.float32), np.asarray(3, dt)], {}, opset=13, static=[1, 2])


def g_dql(rng, zero=False):
    s = rshape(rng, 1, 4)
    dt = pick(rng, [np.uint8, np.int8])
    return Case('DequantizeLinear', [rarr(rng, s, dt), np.asarray(.05, np.float32), np.asarray(3, dt)], {}, opset=13, static=[1, 2])


CONTRACT = {'MatMul': g_matmul, 'Gemm': g_gemm, 'Einsum': g_einsum, 'LSTM': g_lstm,
            'GRU': lambda rng, zero=False: g_lstm(rng, zero, 'GRU', 3), 'LayerNormalization': g_layernorm,
            'BatchNormalization': g_bn, 'InstanceNormalization': g_in, 'LRN': g_lrn, 'MatMulInteger': g_matmulint,
            'QuantizeLinear': g_ql, 'DequantizeLinear': g_dql}

SPARE = {'Slice': (3, 4), 'Pad': (2, 3), 'ReduceSum': (1,), 'ReduceMean': (1,), 'ReduceMax': (1,), 'ReduceMin': (1,), 'ReduceProd': (1,), 'ReduceL2': (1,), 'Squeeze': (1,), 'Split': (1,),
         'Conv': (2,), 'ConvTranspose': (2,), 'Gemm': (2,), 'Clip': (1, 2), 'Resize': (3,), 'MatMulInteger': (2, 3)}
SINCE = {'Pad': {2: 11, 3: 18}, 'Slice': {3: 10, 4: 10}, 'ReduceSum': {1: 13}, 'Squeeze': {1: 13}, 'Split': {1: 13}, 'Clip': {1: 11, 2: 11}, 'Resize': {3: 11}}
NEWER = {op: {1: 18} for op in ('ReduceMean', 'ReduceMax', 'ReduceMin', 'ReduceProd', 'ReduceL2')}


def spare(gen):
    """now and then a trailing optional operand is written with an empty name, which means the same as leaving it out"""
    def fn(rng, *a, **k):
        c = gen(rng, *a, **k)
        for at in SPARE.get(c.op, ()):
            if at == len(c.inputs) and (len(c.inputs) > 1 or not {'axes', 'split', 'starts', 'pads'} & set(c.attrs)) \
                    and c.opset >= {**SINCE, **NEWER}.get(c.op, {}).get(at, 1) and rng.random() < .25:
                c.inputs = list(c.inputs) + [None]
        return c
    return fn


for d in (UNARY, LAYOUT, CONV, CONTRACT):
    for _op in d:
        if _op in SPARE:
            d[_op] = spare(d[_op])
ALL = {}
for d in (BROADCAST, UNARY, LAYOUT, CONV, CONTRACT):
    ALL.update(d)


# ------------------------------------------------------------------ running the tool
def tool_shape(case, how):
    """output shapes and dtypes the tool infers; how: 'feed' (shapes given as input arrays),
    'declared' (shapes declared in the model), 'shapeonly' (shape of the inputs only, no values)"""
    from onnx_tool.graph import Graph
    from onnx_tool.utils import ModelConfig
    m = case.model()
    with quiet():
        g = Graph(m.graph, ModelConfig({}))
        _used[0] += 1
        if how == 'feed' and _used[0] % 2:
            # an earlier inference of the same graph, for other extents
            try:
                g.shape_infer({k: np.zeros([2 * d if d > 1 else d for d in a.shape], a.dtype) for k, a in case.feeds().items()})
            except Exception:
                g = Graph(case.model().graph, ModelConfig({}))
        g.shape_infer(case.feeds() if how == 'feed' else None)
        outs = []
        for o in ['o%d' % k for k in range(case.n_out)]:
            t = g.tensormap[o]
            outs.append((list(t.get_shape()), t.dtype))
    return outs


def tool_value(case):
    """values the tool computes by constant folding (every input an initializer)"""
    from onnx_tool.graph import Graph
    from onnx_tool.utils import ModelConfig
    from onnx_tool.tensor import Tensor, create_initial_Tensor
    from onnx_tool.node import create_node
    m = case.model(all_static=True)
    with quiet():
        node = create_node(m.graph.node[0])
        from onnx_tool.tensor import Tensor
        byname = {t.name: Tensor(t) for t in m.graph.initializer}
        ins = [byname[n] if n else Tensor('') for n in m.graph.node[0].input]
        outs = [Tensor(n) for n in m.graph.node[0].output]
        before = [None if t.numpy is None else t.numpy.copy() for t in ins]
        _used[0] += 1
        if _used[0] % 2:
            # an earlier inference on the same node, on other values
            try:
                other = [Tensor('') if not t.name else create_initial_Tensor(t.name, b if k in case.static or not b.size else np.ascontiguousarray(b.reshape(-1)[::-1].reshape(b.shape)))
                         for k, (t, b) in enumerate(zip(ins, before))]
                node.value_infer(other, outs)
            except Exception:
                node = create_node(m.graph.node[0])
            outs = [Tensor(n) for n in m.graph.node[0].output]
        node.value_infer(ins, outs)
        for b, t in zip(before, ins):
            if b is not None and not (np.array_equal(b, t.numpy, equal_nan=b.dtype.kind == 'f') and b.dtype == t.numpy.dtype):
                raise AssertionError('value inference modified its input %s' % t.name)
    return outs


def same_dtype(a, b):
    try:
        return np.dtype(a) == np.dtype(b)
    except TypeError:
        return False


def check_shape(ctx, case, how, group, dtype=True, ref=None):
    try:
        ref = ref if ref is not None else case.reference()
    except Exception as e:
        ctx.invalid += 1
        return None
    ctx.eval(('shape', how) + case.sig(), sample=case.describe())
    key = '%s/%s' % (group, case.op)
    try:
        outs = tool_shape(case, how)
    except Exception as e:
        ctx.fail(key + '/error', 'shape inference raised %s on %s, ONNX gives %s' %
                 (short(e), short(case.sig()), [list(np.shape(r)) for r in ref]), case.describe())
        return ref
    for k, ((s, d), r) in enumerate(zip(outs, ref)):
        r = np.asarray(r)
        if list(s) != list(r.shape):
            ctx.fail(key + '/shape', 'output %d shape %s, ONNX gives %s, for %s (%s)' %
                     (k, s, list(r.shape), short(case.sig()), how), case.describe())
        elif dtype and not same_dtype(d, r.dtype):
            ctx.fail(key + '/dtype', 'output %d element type %s, ONNX gives %s, for %s' %
                     (k, d, r.dtype, short(case.sig())), case.describe())
    return ref


def check_value(ctx, case, group, tol=None, ref=None, dtype=True):
    try:
        ref = ref if ref is not None else case.reference()
    except Exception as e:
        ctx.invalid += 1
        return None
    ctx.eval(('value',) + case.sig() + (float(sum(float(np.sum(np.asarray(i, dtype=np.float64))) for i in case.inputs if i is not None)),),
             sample=case.describe())
    key = '%s/%s' % (group, case.op)
    try:
        outs = tool_value(case)
    except Exception as e:
        ctx.fail(key + '/error', 'value inference raised %s: %s on %s' % (type(e).__name__, short(e), short(case.sig())), case.describe())
        return ref
    for k, (t, r) in enumerate(zip(outs, ref)):
        r = np.asarray(r)
        v = t.numpy
        if not isinstance(v, np.ndarray) and not np.isscalar(v):
            ctx.fail(key + '/none', 'output %d has no value for %s' % (k, short(case.sig())), case.describe())
            continue
        v = np.asarray(v)
        if v.shape != r.shape or list(t.get_shape()) != list(r.shape):
            ctx.fail(key + '/vshape', 'output %d value shape %s (recorded %s), ONNX gives %s, for %s' %
                     (k, v.shape, t.get_shape(), r.shape, short(case.sig())), case.describe())
            continue
        if dtype and (v.dtype != r.dtype or not same_dtype(t.dtype, r.dtype)):
            ctx.fail(key + '/vdtype', 'output %d value dtype %s (recorded %s), ONNX gives %s, for %s' %
                     (k, v.dtype, t.dtype, r.dtype, short(case.sig())), case.describe())
            continue
        tl = tol or (2e-4 if r.dtype.kind == 'f' else 0)
        ok = np.allclose(v.astype(np.float64), r.astype(np.float64), rtol=tl, atol=tl, equal_nan=True) if r.dtype.kind in 'fiub' else True
        if not ok:
            ctx.fail(key + '/value', 'output %d values differ: got %s, ONNX gives %s, for %s' %
                     (k, short(v.reshape(-1)[:12].tolist()), short(r.reshape(-1)[:12].tolist()), short(case.sig())), case.describe())
    return ref


# ------------------------------------------------------------------ node level (shapes only, any extents)
class SH:
    """a dynamic operand: shape and element type only"""

    def __init__(self, shape, dtype=np.float32):
        self.shape, self.dtype = tuple(shape), np.dtype(dtype)


def _decl(op, ins, attrs, n_out):
    names = ['' if a is None else 'i%d' % k for k, a in enumerate(ins)]
    return oh.make_node(op, names, ['o%d' % k for k in range(n_out)], name='n0', **(attrs or {}))


_used = [0]


def node_run(op, ins, attrs=None, n_out=1, domain=None):
    """(node, intensors, outtensors) after shape inference of one node; operands are SH (dynamic) or arrays (constant)"""
    from onnx_tool.node import create_node
    from onnx_tool.tensor import Tensor, create_initial_Tensor
    def tensors(f):
        it = []
        for k, a in enumerate(ins):
            if a is None:
                it.append(Tensor(''))
            elif isinstance(a, SH):
                t = Tensor('i%d' % k)
                t.update_shape([f(d) for d in a.shape])
                t.update_dtype(a.dtype.type)
                it.append(t)
            else:
                it.append(create_initial_Tensor('i%d' % k, a))
        return it
    with quiet():
        node = create_node(_decl(op, ins, attrs, n_out))
        ot = [Tensor('o%d' % k) for k in range(n_out)]
        _used[0] += 1
        if _used[0] % 2:
            # the node has been used before, for operands of other extents
            try:
                node.shape_infer(tensors(lambda d: 2 * d if d > 1 else d), ot)
            except Exception:
                node = create_node(_decl(op, ins, attrs, n_out))
                ot = [Tensor('o%d' % k) for k in range(n_out)]
        it = tensors(int)
        node.shape_infer(it, ot)
    return node, it, ot


def sig_of(op, ins, attrs, n_out):
    return (op, tuple(None if a is None else (tuple(a.shape), str(a.dtype), None if isinstance(a, SH) or a.size > 40 else a.tolist())
                      for a in ins), tuple(sorted((k, repr(v)) for k, v in (attrs or {}).items())), n_out)


def expect(ctx, group, op, ins, attrs, want, dtypes=None, n_out=None):
    """compare node-level inference with expected shapes (list of lists)"""
    n_out = n_out or len(want)
    sig = sig_of(op, ins, attrs, n_out)
    ctx.eval(('node',) + sig, sample=sig)
    key = '%s/%s' % (group, op)
    rep = {'op': op, 'attrs': repr(attrs), 'n_out': n_out,
           'inputs': [None if a is None else {'shape': list(a.shape), 'dtype': str(a.dtype),
                                              'constant': None if isinstance(a, SH) else a.tolist() if a.size < 4096 else '...'} for a in ins]}
    try:
        node, it, ot = node_run(op, ins, attrs, n_out)
        got = [list(t.get_shape()) for t in ot]
    except Exception as e:
        ctx.fail(key + '/error', 'shape inference raised %s: %s on %s; the definition gives %s' % (type(e).__name__, short(e), short(sig), want), rep)
        return None
    for k, (g, w) in enumerate(zip(got, want)):
        if [int(x) for x in g] != [int(x) for x in w] or any(isinstance(x, str) for x in g):
            ctx.fail(key + '/shape', 'output %d inferred as %s, the definition gives %s, for %s' % (k, g, [int(x) for x in w], short(sig)), rep)
        if any(int(x) != x for x in ot[k].shape):
            ctx.fail(key + '/nonint', 'output %d has a non-integer extent %s for %s' % (k, ot[k].shape, short(sig)), rep)
        if dtypes and dtypes[k] is not None and not same_dtype(ot[k].dtype, dtypes[k]):
            ctx.fail(key + '/dtype', 'output %d element type %s, the definition gives %s, for %s' % (k, ot[k].dtype, dtypes[k], short(sig)), rep)
    for k, a in enumerate(ins):
        if isinstance(a, SH) and [int(x) for x in it[k].shape] != list(a.shape):
            ctx.fail(key + '/input', 'shape inference changed the shape of input %d from %s to %s for %s' % (k, a.shape, it[k].shape, short(sig)), rep)
    return node, it, ot


def expect_reject(ctx, group, op, ins, attrs=None, n_out=1):
    sig = sig_of(op, ins, attrs, n_out)
    ctx.eval(('reject',) + sig, sample=sig)
    try:
        _, _, ot = node_run(op, ins, attrs, n_out)
    except Exception:
        return
    ctx.fail('%s/%s/accepted' % (group, op), 'incompatible inputs %s were given the shape %s instead of being rejected' %
             (short(sig), ot[0].shape), {'op': op, 'attrs': repr(attrs), 'inputs': [list(a.shape) for a in ins]})


def big(rng, lo=1, hi=5, zero=False):
    """an extent: mostly small, sometimes 1, sometimes large"""
    u = rng.random()
    if zero and u < .05:
        return 0
    if u < .7:
        return R(rng, lo, hi)
    if u < .8:
        return 1 if lo <= 1 else lo
    return R(rng, max(lo, 6), 3000)
