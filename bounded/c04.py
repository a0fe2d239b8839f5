"""Contractions, recurrent layers, attention, normalisation, quantise/dequantise shapes."""
import numpy as np
from . import opgen as og
from .opgen import SH, R, pick
from spec import shapes as S

REF = ['MatMul', 'Gemm', 'Einsum', 'LSTM', 'GRU', 'BatchNormalization', 'InstanceNormalization', 'MatMulInteger', 'QuantizeLinear']
FL = [np.float32, np.float64, np.float16]


def einsum_case(rng):
    """random explicit / implicit equation with optional ellipsis"""
    labels = [chr(97 + i) for i in range(R(rng, 1, 6))]
    dims = {c: og.big(rng) for c in labels}
    nt = R(rng, 1, 3)
    ell = rng.random() < .35
    full = [og.big(rng) for _ in range(R(rng, 0, 3))]
    terms, shapes = [], []
    for _ in range(nt):
        k = R(rng, 1, len(labels))
        t = [labels[int(v)] for v in rng.permutation(len(labels))[:k]]
        sh = [dims[c] for c in t]
        if ell and rng.random() < .7:
            p = R(rng, 0, k)
            keep = R(rng, 0, len(full))
            e = [1 if rng.random() < .3 else d for d in full[len(full) - keep:]]
            terms.append(''.join(t[:p]) + '...' + ''.join(t[p:]))
            shapes.append(sh[:p] + e + sh[p:])
        else:
            terms.append(''.join(t))
            shapes.append(sh)
    used = sorted(set(''.join(terms)) - {'.'})
    has = [i for i, t in enumerate(terms) if '...' in t]
    eshape, ok = S.bcast([shapes[i][terms[i].index('.'):len(shapes[i]) - (len(terms[i]) - 3 - terms[i].index('.'))] for i in has]) if has else ([], True)
    if rng.random() < .25:
        allc = ''.join(terms)
        out = '...' if has else ''
        lab = ''.join(c for c in used if allc.count(c) == 1)
        want = list(eshape) + [dims[c] for c in lab]
        eq = ','.join(terms)
    else:
        k = R(rng, 0, len(used))
        o = [used[int(v)] for v in rng.permutation(len(used))[:k]]
        want = [dims[c] for c in o]
        s = ''.join(o)
        if has:
            p = R(rng, 0, k)
            s = ''.join(o[:p]) + '...' + ''.join(o[p:])
            want = want[:p] + list(eshape) + want[p:]
        eq = ','.join(terms) + '->' + s
        if rng.random() < .2:
            eq = eq.replace(',', ' , ').replace('->', ' -> ')
    return eq, shapes, want


def run(ctx):
    rng = ctx.rng
    for op in REF:
        with ctx.section('reference ' + op):
            for i in range(ctx.n(30, 400)):
                if ctx.timeup():
                    break
                og.check_shape(ctx, og.CONTRACT[op](rng), 'feed' if i % 2 else 'declared', 'ref', dtype=op != 'Einsum')
    N = ctx.n(250, 6000)
    with ctx.section('matrix products'):
        for i in range(N):
            m, k, n = og.big(rng), og.big(rng), og.big(rng)
            r = R(rng, 0, 4)
            full = [og.big(rng, zero=True) for _ in range(r)]
            bb = [[1 if rng.random() < .3 else d for d in full[R(rng, 0, r):]] for _ in range(2)]
            a, b = bb[0] + [m, k], bb[1] + [k, n]
            if rng.random() < .1:
                a = [k]
            elif rng.random() < .1:
                b = [k]
            want, ok = S.matmul(a, b)
            dt = pick(rng, FL)
            og.expect(ctx, 'mm', 'MatMul', [SH(a, dt), SH(b, dt)], {}, [want], [dt])
            if rng.random() < .3:
                bad = list(a)
                bad[-1] = k + R(rng, 1, 3)
                og.expect_reject(ctx, 'mm', 'MatMul', [SH(bad, dt), SH(b, dt)])
            if len(a) > 1 and len(b) > 1:
                if i % 2:
                    og.expect(ctx, 'mm', 'MatMulInteger', [SH(a, np.uint8), SH(b, np.int8)], {}, [want], [np.int32])
                else:
                    z = lambda d: np.asarray(1, d)
                    od = pick(rng, [np.uint8, np.int8])
                    og.expect(ctx, 'mm', 'QLinearMatMul', [SH(a, np.uint8), z(np.float32), z(np.uint8), SH(b, np.int8), z(np.float32),
                                                           z(np.int8), z(np.float32), np.asarray(1, od)], {}, [want], [od])
    with ctx.section('gemm'):
        for i in range(N):
            m, k, n = og.big(rng), og.big(rng), og.big(rng)
            ta, tb = R(rng, 0, 1), R(rng, 0, 1)
            at = {}
            if ta or rng.random() < .3:
                at['transA'] = ta
            if tb or rng.random() < .3:
                at['transB'] = tb
            if rng.random() < .3:
                at['alpha'] = .5
            a, b = ([k, m] if ta else [m, k]), ([n, k] if tb else [k, n])
            dt = pick(rng, FL)
            ins = [SH(a, dt), SH(b, dt)] + ([SH(pick(rng, [[n], [m, n], [1, n], [m, 1], [1], []]), dt)] if rng.random() < .6 else [])
            og.expect(ctx, 'gemm', 'Gemm', ins, at, [[m, n]], [dt])
            if rng.random() < .3:
                a = ([k + 1, m] if ta else [m, k + 1])
                og.expect_reject(ctx, 'gemm', 'Gemm', [SH(a, dt), SH(b, dt)], at)
    with ctx.section('einsum'):
        for i in range(N * 2):
            eq, sh, want = einsum_case(rng)
            dt = pick(rng, FL)
            og.expect(ctx, 'einsum', 'Einsum', [SH(s, dt) for s in sh], {'equation': eq}, [want], [dt])
    with ctx.section('recurrent'):
        for i in range(N):
            op, g = ('LSTM', 4) if i % 2 else ('GRU', 3)
            T, B, In, H, D = og.big(rng), og.big(rng), og.big(rng), og.big(rng), R(rng, 1, 2)
            at = {}
            if rng.random() < .6:
                at['hidden_size'] = H
            if D == 2:
                at['direction'] = 'bidirectional'
            ins = [SH([T, B, In]), SH([D, g * H, In]), SH([D, g * H, H])]
            if rng.random() < .7:
                ins.append(SH([D, 2 * g * H]))
                if rng.random() < .4:
                    ins += [None, SH([D, B, H])] + ([SH([D, B, H])] if op == 'LSTM' else [])
            outs = [[T, D, B, H], [D, B, H], [D, B, H]][:R(rng, 1, 3 if op == 'LSTM' else 2)]
            og.expect(ctx, 'rnn', op, ins, at, outs, [np.float32] * len(outs))
    with ctx.section('normalisation'):
        for i in range(N):
            r = R(rng, 2, 5)
            s = [og.big(rng) for _ in range(r)]
            dt = pick(rng, FL)
            c = SH([s[1]], dt)
            at = {'epsilon': 1e-3} if rng.random() < .5 else {}
            og.expect(ctx, 'norm', 'BatchNormalization', [SH(s, dt), c, c, c, c], at, [s], [dt])
            if r > 2:
                og.expect(ctx, 'norm', 'InstanceNormalization', [SH(s, dt), c, c], at, [s], [dt])
                og.expect(ctx, 'norm', 'LRN', [SH(s, dt)], {'size': R(rng, 1, 7)}, [s], [dt])
            ax = R(rng, -r, r - 1)
            lt = SH(s[ax:], dt)
            og.expect(ctx, 'norm', 'LayerNormalization', [SH(s, dt), lt] + ([lt] if rng.random() < .5 else []),
                      {} if ax == -1 and rng.random() < .4 else {'axis': ax}, [s], [dt])
            st = R(rng, 1, 2)
            og.expect(ctx, 'norm', 'LayerNormalization', [SH(s, dt), lt], {'axis': ax}, [s] + [s[:ax % r] + [1] * (r - ax % r)] * st, [dt] + [np.float32] * st)
            og.expect(ctx, 'norm', 'BatchNormalization', [SH(s, dt), c, c, SH([s[1]]), SH([s[1]])], {'training_mode': 1}, [s, [s[1]], [s[1]]], [dt, np.float32, np.float32])
            qd = pick(rng, [np.uint8, np.int8])
            z = np.asarray(1, qd) if rng.random() < .5 else SH([s[1]], qd)
            sc = np.asarray(1, np.float32)
            if rng.random() < .2:
                og.expect(ctx, 'quant', 'QuantizeLinear', [SH(s), sc], {}, [s], [np.uint8])
            else:
                og.expect(ctx, 'quant', 'QuantizeLinear', [SH(s), sc, z], {}, [s], [qd])
            og.expect(ctx, 'quant', 'DequantizeLinear', [SH(s, qd), sc] + ([z] if rng.random() < .7 else []), {}, [s], [np.float32])
    with ctx.section('attention'):
        from onnx_tool.node import create_node, TmpNodeProto
        from onnx_tool.tensor import Tensor
        for i in range(ctx.n(60, 1500)):
            b, h, sq, d, kv, past = og.big(rng), R(rng, 1, 9), og.big(rng), R(rng, 1, 64), R(rng, 1, 4), og.big(rng)
            op = pick(rng, ['SDPA', 'GQA', 'MQA'])
            n = create_node(TmpNodeProto('n', op, {'head_num': h, 'head_size': d, 'kv_head_num': kv}))
            four = rng.random() < .6
            q = [b, h, sq, d] if four else [b, sq, h * d]
            it = []
            for nm, sh in (('q', q), ('k', [b, sq, kv * d]), ('v', [b, sq, kv * d])):
                t = Tensor(nm)
                t.update_shape(list(sh))
                t.update_dtype(np.float16)
                it.append(t)
            o = Tensor('o')
            ctx.eval(('att', op, tuple(q)), q)
            n.shape_infer(it, [o])
            if list(o.get_shape()) != [b, sq, h * d] or o.dtype != np.float16:
                ctx.fail('attention/%s' % op, '%s over %s inferred as %s %s, defined as %s' % (op, q, o.get_shape(), o.dtype, [b, sq, h * d]), {'q': q})
