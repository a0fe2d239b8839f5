"""Elementwise operators: broadcast shape, element type, rejection."""
import numpy as np
from . import opgen as og
from .opgen import SH, R, pick
from spec import shapes as S

# operators whose inferred output is boolean / whose element type is the data input's
COMPARE = ['Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal']
LOGIC = ['And', 'Or', 'Xor']
ARITH = ['Add', 'Sub', 'Mul', 'Div', 'Pow', 'Mod']
VARIADIC = ['Sum', 'Min', 'Max']
LAZY = {'Equal', 'Greater', 'GreaterOrEqual'}  # inferred by computing a value array: keep the arrays small
UN_FLOAT = ['Ceil', 'Floor', 'Round', 'Exp', 'Log', 'Sqrt', 'Sin', 'Cos', 'Sigmoid', 'Tanh', 'Atan', 'Relu', 'Elu', 'LeakyRelu',
            'HardSigmoid', 'HardSwish', 'Softplus', 'Reciprocal', 'Erf', 'Softmax', 'LogSoftmax', 'Silu', 'Gelu', 'Relu6', 'Identity',
            'Neg', 'Abs', 'Sign', 'Hardmax', 'ImageScaler', 'LpNormalization', 'LogitSoftCapping', 'Trilu', 'CumSum', 'Clip', 'Dropout']
FLOATS = [np.float32, np.float64, np.float16]
NUM = FLOATS + [np.int32, np.int64, np.int8, np.uint8]


def shapes(rng, n, small):
    r = R(rng, 0, 6)
    full = [(R(rng, 1, 3) if small else og.big(rng)) for _ in range(r)]
    if rng.random() < .08 and r:
        full[R(rng, 0, r - 1)] = 0
    out = []
    for _ in range(n):
        keep = R(rng, 0, r)
        out.append([1 if rng.random() < .35 else d for d in full[r - keep:]])
    if rng.random() < .6:
        out[R(rng, 0, n - 1)] = list(full)
    return out


def attrs_for(rng, op, rank):
    if op in ('Elu', 'LeakyRelu', 'HardSigmoid') and rng.random() < .4:
        return {'alpha': .3}
    if op in ('Softmax', 'LogSoftmax', 'Hardmax') and rank and rng.random() < .8:
        return {'axis': R(rng, -rank, rank - 1)}
    if op == 'Trilu' and rng.random() < .5:
        return {'upper': 0}
    return {}


def run(ctx):
    rng = ctx.rng
    # whole path, ONNX reference evaluator as oracle
    for op in list(og.BROADCAST) + list(og.UNARY):
        g = dict(og.BROADCAST, **og.UNARY)[op]
        with ctx.section('reference ' + op):
            for i in range(ctx.n(24, 400)):
                if ctx.timeup():
                    break
                og.check_shape(ctx, g(rng), 'feed' if i % 2 else 'declared', 'ref')
    # node level: any extents, against the closed-form broadcast rule
    with ctx.section('broadcast rule'):
        for i in range(ctx.n(1500, 30000)):
            if ctx.timeup():
                break
            kind = i % 6
            op, n, dt = (pick(rng, COMPARE), 2, pick(rng, NUM)) if kind == 0 else (pick(rng, LOGIC), 2, np.bool_) if kind == 1 else \
                ('Where', 3, pick(rng, NUM)) if kind == 2 else (pick(rng, VARIADIC), R(rng, 1, 5), pick(rng, NUM)) if kind == 3 else \
                (pick(rng, ARITH), 2, pick(rng, NUM))
            sh = shapes(rng, n, op in LAZY)
            dts = [dt] * n
            out = np.bool_ if kind in (0, 1) else dt
            if op == 'Where':
                dts[0] = np.bool_
            want, ok = S.bcast(sh)
            assert ok
            at = {'fmod': 1} if op == 'Mod' and np.dtype(dt).kind == 'f' else {}
            og.expect(ctx, 'bcast', op, [SH(s, d) for s, d in zip(sh, dts)], at, [want], [out])
            # an incompatible extent on one aligned axis must be rejected
            r = max(len(s) for s in sh)
            if r and n > 1 and i % 2:
                bad = [list(s) for s in sh]
                k = R(rng, 1, min(len(bad[a]) for a in range(n) if len(bad[a]))) if any(bad) else 0
                own = [a for a in range(n) if len(bad[a]) >= k]
                if k and len(own) >= 2:
                    a, b = [own[int(v)] for v in rng.permutation(len(own))[:2]]
                    e = R(rng, 2, 5)
                    f = pick(rng, [v for v in (2, 3, 4, 5, 6) if v != e] + [0])
                    bad[a][-k], bad[b][-k] = (e, f) if rng.random() < .5 else (f, e)
                    if not S.bcast(bad)[1]:
                        og.expect_reject(ctx, 'bcast', op, [SH(s, d) for s, d in zip(bad, dts)], at)
    with ctx.section('single input'):
        for i in range(ctx.n(900, 15000)):
            if ctx.timeup():
                break
            op = UN_FLOAT[i % len(UN_FLOAT)]
            s = [og.big(rng, zero=True) for _ in range(R(rng, 2 if op == 'Trilu' else 1 if op in ('CumSum', 'Softmax', 'LogSoftmax', 'Hardmax') else 0, 6))]
            dt = pick(rng, FLOATS)
            ins = [SH(s, dt)]
            if op == 'CumSum':
                ins.append(np.asarray(R(rng, -len(s), len(s) - 1), np.int64))
            if op == 'Clip' and rng.random() < .6:
                ins += [np.asarray(0, dt), np.asarray(6, dt)]
            og.expect(ctx, 'unary', op, ins, attrs_for(rng, op, len(s)), [s], [dt])
        for i in range(ctx.n(60, 600)):
            s = [og.big(rng, zero=True) for _ in range(R(rng, 0, 6))]
            og.expect(ctx, 'unary', 'Not', [SH(s, np.bool_)], {}, [s], [np.bool_])
            sl = [1 if rng.random() < .4 else d for d in s[R(rng, 0, len(s)):]]
            og.expect(ctx, 'unary', 'PRelu', [SH(s), np.zeros(sl, np.float32) if S.prod(sl) < 10000 else SH(sl)], {}, [s], [np.float32])
    with ctx.section('helper'):
        from onnx_tool.node import _broadcast_shape
        for i in range(ctx.n(1500, 30000)):
            n = R(rng, 1, 5)
            sh = shapes(rng, n, False) if rng.random() < .6 else [[R(rng, 0, 4) for _ in range(R(rng, 0, 4))] for _ in range(n)]
            want, ok = S.bcast(sh)
            ctx.eval(('h', repr(sh)), sh)
            try:
                got = list(_broadcast_shape([tuple(s) for s in sh] if i % 2 else sh))
            except Exception as e:
                got = 'rejected'
            if got != (want if ok else 'rejected'):
                ctx.fail('helper/_broadcast_shape', 'shapes %s broadcast to %s, the rule gives %s' % (sh, got, want if ok else 'rejection'), {'shapes': sh})
