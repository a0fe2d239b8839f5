"""Convolution and pooling extents against the ONNX closed forms."""
import numpy as np
from . import opgen as og
from .opgen import SH, R, pick
from spec import shapes as S

AUTO = [None, None, None, 'NOTSET', 'SAME_UPPER', 'SAME_LOWER', 'VALID']


def attr_case(rng, nd, k, transposed=False, dil_max=4):
    """random attributes with random subsets left at default; returns (attrs, effective)"""
    at = {}
    st = [R(rng, 1, 4) for _ in range(nd)] if rng.random() < .75 else None
    di = [R(rng, 1, dil_max) for _ in range(nd)] if rng.random() < .5 else None
    auto = pick(rng, AUTO)
    pd = [R(rng, 0, 5) for _ in range(2 * nd)] if rng.random() < .7 and auto in (None, 'NOTSET') else None
    for n, v in (('strides', st), ('dilations', di), ('pads', pd), ('auto_pad', auto)):
        if v is not None:
            at[n] = v
    return at, st or [1] * nd, di or [1] * nd, pd or [0] * (2 * nd), auto


def extents(rng, k, d):
    return [max((kk - 1) * dd + 1, og.big(rng, 1, 20)) for kk, dd in zip(k, d)]


def run(ctx):
    rng = ctx.rng
    for op, g in og.CONV.items():
        if op in ('MaxPool', 'AveragePool'):
            continue
        with ctx.section('reference ' + op):
            for i in range(ctx.n(20, 300)):
                if ctx.timeup():
                    break
                og.check_shape(ctx, g(rng), 'feed' if i % 2 else 'declared', 'ref')
    with ctx.section('convolution'):
        for i in range(ctx.n(900, 20000)):
            if ctx.timeup():
                break
            nd = 1 + i % 3
            k = [R(rng, 1, 5) for _ in range(nd)]
            at, st, di, pd, auto = attr_case(rng, nd, k)
            x = extents(rng, k, di)
            gr = pick(rng, [1, 1, 2, 4])
            ci, co = gr * R(rng, 1, 4), gr * R(rng, 1, 4)
            if gr > 1 or rng.random() < .2:
                at['group'] = gr
            if rng.random() < .6:
                at['kernel_shape'] = k
            n = og.big(rng)
            out = [n, co] + [S.conv_axis(x[a], k[a], st[a], di[a], pd[a], pd[a + nd], auto) for a in range(nd)]
            X, W = SH([n, ci] + x), SH([co, ci // gr] + k)
            u = i % 7
            if u == 5:
                ins = [SH(X.shape, np.uint8), SH((), np.float32), SH((), np.uint8), SH(W.shape, np.int8), SH((), np.float32), SH((), np.int8),
                       SH((), np.float32), SH((), np.uint8)] + ([SH((co,), np.int32)] if rng.random() < .5 else [])
                og.expect(ctx, 'conv', 'QLinearConv', ins, at, [out], [np.uint8])
            elif u == 6:
                og.expect(ctx, 'conv', 'ConvInteger', [SH(X.shape, np.uint8), SH(W.shape, np.int8)], at, [out], [np.int32])
            else:
                og.expect(ctx, 'conv', 'Conv', [X, W] + ([SH((co,))] if rng.random() < .5 else []), at, [out], [np.float32])
    with ctx.section('transposed convolution'):
        for i in range(ctx.n(600, 12000)):
            if ctx.timeup():
                break
            nd = 1 + i % 3
            k = [R(rng, 1, 5) for _ in range(nd)]
            at, st, di, pd, auto = attr_case(rng, nd, k)
            op = [0] * nd
            if rng.random() < .4:
                op = [R(rng, 0, max(s, d) - 1) for s, d in zip(st, di)]
                at['output_padding'] = op
            if auto in ('SAME_UPPER', 'SAME_LOWER'):
                at.pop('output_padding', None)
                op = [0] * nd
            x = [max(og.big(rng, 1, 12), 1 + (pd[a] + pd[a + nd]) // st[a]) for a in range(nd)]
            gr = pick(rng, [1, 1, 2, 3])
            ci, co = gr * R(rng, 1, 4), R(rng, 1, 4)
            if gr > 1:
                at['group'] = gr
            n = og.big(rng)
            sp = [S.convt_axis(x[a], k[a], st[a], di[a], pd[a], pd[a + nd], op[a], auto) for a in range(nd)]
            if rng.random() < .12:
                sp = [R(rng, 1, 30) for _ in range(nd)]
                at['output_shape'] = sp
                at.pop('pads', None)
            if min(sp) < 1:
                continue
            og.expect(ctx, 'convt', 'ConvTranspose', [SH([n, ci] + x), SH([ci, co] + k)] + ([SH((co * gr,))] if rng.random() < .5 else []),
                      at, [[n, co * gr] + sp], [np.float32])
    with ctx.section('pooling'):
        for i in range(ctx.n(900, 20000)):
            if ctx.timeup():
                break
            nd = 1 + i % 3
            op = ('MaxPool', 'AveragePool')[i % 2]
            k = [R(rng, 1, 5) for _ in range(nd)]
            at, st, di, pd, auto = attr_case(rng, nd, k)
            at['kernel_shape'] = k
            x = extents(rng, k, di)
            ceil = 0
            if auto in (None, 'NOTSET') and rng.random() < .5:
                ceil = R(rng, 0, 1)
                at['ceil_mode'] = ceil
            n, c = og.big(rng), og.big(rng)
            sp = [S.conv_axis(x[a], k[a], st[a], di[a], pd[a], pd[a + nd], auto, ceil) for a in range(nd)]
            # a last window that would start in the end padding is outside the claim (see DESIGN)
            if ceil and any((o - 1) * s >= xx + p for o, s, xx, p in zip(sp, st, x, pd)):
                continue
            og.expect(ctx, 'pool', op, [SH([n, c] + x)], at, [[n, c] + sp], [np.float32])
            if op == 'MaxPool' and i % 3 == 0:
                og.expect(ctx, 'pool', op, [SH([n, c] + x)], at, [[n, c] + sp] * 2, [np.float32, np.int64])
    with ctx.section('global pooling'):
        for i in range(ctx.n(60, 800)):
            s = [og.big(rng) for _ in range(2 + R(rng, 1, 4))]
            og.expect(ctx, 'gap', 'GlobalAveragePool', [SH(s)], {}, [s[:2] + [1] * (len(s) - 2)], [np.float32])
