"""Elementwise operators: shapes of any rank (symbolic length), any extents; the broadcast rule as postcondition."""
import numpy as np
from pyvc.contract import Entry, Case, Ten, op_case, bcast, count, lst
from spec import shapes as S
from spec import macs as M

F, F64, F16, I32, I64, I8, U8, B = np.float32, np.float64, np.float16, np.int32, np.int64, np.int8, np.uint8, np.bool_
COMPARE = ['Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal']
LOGIC = ['And', 'Or', 'Xor']
ARITH = ['Add', 'Sub', 'Mul', 'Div', 'Pow', 'Mod']
VARIADIC = ['Sum', 'Min', 'Max']
UN_FLOAT = ['Ceil', 'Floor', 'Round', 'Exp', 'Log', 'Sqrt', 'Sin', 'Cos', 'Sigmoid', 'Tanh', 'Atan', 'Relu', 'Elu', 'LeakyRelu',
            'HardSigmoid', 'HardSwish', 'Softplus', 'Reciprocal', 'Erf', 'Softmax', 'LogSoftmax', 'Silu', 'Gelu', 'Relu6', 'Identity',
            'Neg', 'Abs', 'Sign', 'Hardmax', 'ImageScaler', 'LpNormalization', 'LogitSoftCapping', 'Trilu', 'CumSum', 'Clip', 'Dropout']
COST1 = {'Sum': None}


def cost(v, op, out, n):
    c = count(v, out)
    if op in M.ZERO:
        return 0
    if op == 'Sum':
        return c * (n - 1)
    return c * M.PER_ELEMENT[op]


def helper(n):
    def fn(v):
        from onnx_tool.node import _broadcast_shape
        ss = [v.seq('s%d' % k, 0) for k in range(n)]
        o, rej = bcast(v, ss)
        return Case(lambda: lst(_broadcast_shape([s.copy() for s in ss])), o, rej)
    return fn


def broadcasting(op, n, dts, out, want, rank=None):
    lo = 1 if op in ('Equal', 'Greater', 'GreaterOrEqual') else 0

    def fn(v):
        ss = [v.seq('s%d' % k, lo) if rank is None else v.shape('s%d_' % k, rank[k]) for k in range(n)]
        o, rej = bcast(v, ss)
        at = {'fmod': 1} if op == 'Mod' and np.dtype(dts[0]).kind == 'f' else {}
        return op_case(v, op, [Ten(s, d) for s, d in zip(ss, dts)], at, 1, [o], [out], cost(v, op, o, n), rej, want=want)
    return fn


def unary(op, dt, want, attrs=None, extra=(), min_rank=0):
    def fn(v):
        s = v.seq('s', 0)
        if min_rank:
            v.require((len(s) if v.native else s.n) >= min_rank)
        ins = [Ten(s, dt)] + [Ten([], d, value=x) for x, d in extra]
        return op_case(v, op, ins, attrs, 1, [s], [dt], cost(v, op, s, 1), want=want)
    return fn


def family(tier, want=('shape',)):
    full = tier == 'thorough'
    for op in ARITH:
        for dt in ([F, F64, F16, I32, I64, I8, U8] if full else [F, I64]):
            yield '%s/%s' % (op, np.dtype(dt).name), broadcasting(op, 2, [dt, dt], dt, want), ''
    for op in COMPARE:
        for dt in ([F, F64, I32, I64, U8] if full else [F, I64]):
            yield '%s/%s' % (op, np.dtype(dt).name), broadcasting(op, 2, [dt, dt], B, want), ''
    for op in LOGIC:
        yield op, broadcasting(op, 2, [B, B], B, want), ''
    for dt in ([F, F16, I64] if full else [F]):
        yield 'Where/%s' % np.dtype(dt).name, broadcasting('Where', 3, [B, dt, dt], dt, want), ''
    for op in VARIADIC:
        for n in (1, 2, 3):
            yield '%s/%d inputs' % (op, n), broadcasting(op, n, [F] * n, F, want), ''
        for n in (4, 5):
            for r in ([(1, 2, 0, 2, 1), (2, 2, 3, 1, 0)] if not full else [(1, 2, 0, 2, 1), (2, 2, 3, 1, 0), (3, 1, 2, 3, 1), (0, 0, 4, 4, 4)]):
                yield '%s/%d inputs/ranks %s' % (op, n, r[:n]), broadcasting(op, n, [F] * n, F, want, r), 'ranks %s' % (r[:n],)
    for op in UN_FLOAT:
        for dt in ([F, F64, F16] if full else [F]):
            mr = 2 if op == 'Trilu' else 1 if op in ('CumSum', 'Softmax', 'LogSoftmax', 'Hardmax') else 0
            ats = [None]
            if op in ('Elu', 'LeakyRelu', 'HardSigmoid'):
                ats.append({'alpha': .3})
            if op in ('Softmax', 'LogSoftmax', 'Hardmax'):
                ats += [{'axis': 0}, {'axis': -1}]
            if op == 'Trilu':
                ats.append({'upper': 0})
            for at in ats:
                ex = ((0, I64),) if op == 'CumSum' else ()
                yield '%s/%s/%s' % (op, np.dtype(dt).name, at or '-'), unary(op, dt, want, at, ex, mr), ''
            if op == 'Clip':
                yield 'Clip/%s/limits' % np.dtype(dt).name, unary(op, dt, want, None, ((0, dt), (6, dt))), ''
    yield 'Not', unary('Not', B, want), ''


def prelu(want):
    def fn(v):
        s = v.seq('s', 0)
        sl = v.seq('sl', 1)
        o, rej = bcast(v, [s, sl])
        return op_case(v, 'PRelu', [Ten(s), Ten(sl)], {}, 1, [s], [F], cost(v, 'PRelu', s, 1), want=want)
    return fn


def entries(tier):
    for n in (1, 2, 3):
        yield Entry('_broadcast_shape/%d shapes' % n, ['C01'], helper(n))
    for name, fn, bound in family(tier):
        yield Entry(name, ['C01'], fn, bound)
    yield Entry('PRelu', ['C01'], prelu(('shape',)))
