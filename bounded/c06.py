"""Reported multiply-accumulate counts against the per-operator formulas (spec/macs.py)."""
import numpy as np
from . import opgen as og
from .opgen import SH, R, pick, big, node_run
from .core import quiet, short
from spec import macs as M
from spec import shapes as S

LAZY = {'Equal', 'Greater', 'GreaterOrEqual'}   # inferred by computing a value array: keep the arrays small


def shapes_of(it):
    return [None if t.name == '' else [int(d) for d in t.get_shape()] for t in it]


def expected(op, attrs, ins, outs):
    """formula over resolved shapes; None when the operator has no row here"""
    while ins and ins[-1] is None:      # an operand left out with an empty name
        ins = ins[:-1]
    n = len(ins)
    if op == 'Sum':
        return M.variadic_sum(outs[0], n)
    if op == 'MatMul':
        return M.matmul(ins[0], outs[0], n == 3)
    if op == 'MatMulInteger':
        return M.matmul(ins[0], outs[0])
    if op == 'QLinearMatMul':
        return M.matmul(ins[0], outs[0])
    if op == 'Gemm':
        k = ins[0][0] if attrs.get('transA', 0) else ins[0][1]
        return M.gemm(k, outs[0], n == 3)
    if op in ('Conv', 'ConvTranspose', 'ConvInteger'):
        return M.conv(ins[1], outs[0], n == 3 and op != 'ConvInteger')
    if op == 'QLinearConv':
        return M.conv(ins[3], outs[0], n == 9)
    if op in ('MaxPool', 'AveragePool'):
        return M.pool(outs[0], attrs['kernel_shape'])
    if op == 'GlobalAveragePool':
        return M.gap(ins[0], outs[0])
    if op in M.REDUCE:
        return M.reduce(op, ins[0])
    if op == 'LayerNormalization':
        return M.layernorm(ins[0], attrs.get('axis', -1))
    if op in ('Resize', 'Upsample'):
        return M.resize(outs[0], attrs.get('mode', 'nearest'))
    if op == 'LRN':
        return M.lrn(outs[0], attrs['size'])
    if op == 'LSTM':
        return M.lstm(ins[0], ins[1], ins[2], ins[3] if n > 3 and ins[3] is not None else ())
    if op == 'GRU':
        return M.gru(ins[0], ins[1], ins[2], ins[3] if n > 3 and ins[3] is not None else ())
    if op == 'Einsum':
        return None
    if op in M.ZERO:
        return 0
    if op in M.PER_ELEMENT:
        return M.per_element(op, outs[0])
    return None


def compare(ctx, group, op, attrs, ins, n_out, want=None, key=None):
    """run one node on shapes/constants, compare the count"""
    sig = og.sig_of(op, ins, attrs, n_out)
    ctx.eval(('macs',) + sig, sample=sig)
    key = '%s/%s' % (group, op)
    rep = {'op': op, 'attrs': repr(attrs), 'inputs': [None if a is None else list(a.shape) for a in ins]}
    try:
        node, it, ot = node_run(op, ins, attrs, n_out)
        with quiet():
            got = node.profile(it, ot)
        m = got[0]
    except Exception as e:
        ctx.fail(key + '/error', 'profiling raised %s: %s on %s' % (type(e).__name__, short(e), short(sig)), rep)
        return
    si, so = shapes_of(it), [[int(d) for d in t.get_shape()] for t in ot]
    w = want if want is not None else expected(op, attrs or {}, si, so)
    if w is None:
        return
    if isinstance(m, (list, tuple)):
        m = m[0]
    if int(m) != m or int(m) != w:
        ctx.fail(key + '/macs', 'reported %s, formula gives %d, for inputs %s attributes %s outputs %s' % (m, w, si, short(attrs), so), rep)
    if m < 0:
        ctx.fail(key + '/negative', 'negative count %s for %s' % (m, short(sig)), rep)


def case_ins(c):
    return [None if a is None else (a if k in c.static else SH(a.shape, a.dtype)) for k, a in enumerate(c.inputs)]


def einsum_labels(eq, ins):
    lhs = eq.replace(' ', '').split('->')[0].split(',')
    sizes = {}
    for t, s in zip(lhs, ins):
        r = len(s) - (len(t) - (3 if '...' in t else 0))
        labs = []
        i = 0
        while i < len(t):
            if t.startswith('...', i):
                labs += ['.%d' % (r - k) for k in range(r)]
                i += 3
            else:
                labs.append(t[i])
                i += 1
        for lab, d in zip(labs, s):
            if sizes.get(lab, 1) == 1:
                sizes[lab] = d
    return int(np.prod([1] + list(sizes.values()), dtype=object))


def run(ctx):
    rng = ctx.rng
    gens = {**og.BROADCAST, **og.UNARY, **og.LAYOUT, **og.CONV, **og.CONTRACT}
    for op, gen in gens.items():
        with ctx.section('formula ' + op):
            for i in range(ctx.n(12, 200)):
                if ctx.timeup():
                    return
                c = gen(rng)
                want = None
                if c.op == 'Einsum':
                    want = einsum_labels(c.attrs['equation'], [list(a.shape) for a in c.inputs])
                at = {k: v for k, v in c.attrs.items()}
                compare(ctx, 'formula', c.op, at, case_ins(c), c.n_out, want)
    # large, independent extents (no arrays needed)
    with ctx.section('extents elementwise'):
        for op in sorted(M.PER_ELEMENT):
            if op in ('NonZero', 'BatchNormalization', 'CategoryMapper', 'InstanceNormalization', 'QuantizeLinear', 'DequantizeLinear',
                      'LogitSoftCapping', 'Rope', 'Hardmax', 'ImageScaler', 'LpNormalization'):
                continue
            for i in range(ctx.n(3, 40)):
                s = [big(rng, 1, 9) for _ in range(R(rng, 0, 6))]
                if op in LAZY:
                    s = [R(rng, 1, 5) for _ in s]
                k = 2 if op in og.BROADCAST and op not in ('Sum', 'Min', 'Max') else 1
                if op in ('Clip', 'CumSum'):
                    k = 1 if op == 'Clip' else 2
                ins = [SH(s)]
                at = {}
                if k == 2:
                    ins.append(SH([d if rng.random() < .7 else 1 for d in s]))
                if op == 'CumSum':
                    if not s:
                        continue
                    ins[1] = np.asarray(0, np.int64)
                if op in ('Min', 'Max'):
                    ins = [SH(s)] * R(rng, 1, 4)
                if op in ('Softmax', 'LogSoftmax', 'GeGelu') and not s:
                    continue
                compare(ctx, 'extents', op, at, ins, 1)
    with ctx.section('extents sum'):
        for i in range(ctx.n(12, 200)):
            s = [big(rng, 1, 9) for _ in range(R(rng, 0, 5))]
            compare(ctx, 'extents', 'Sum', {}, [SH(s)] * R(rng, 1, 6), 1)
    with ctx.section('extents lrn'):
        for i in range(ctx.n(8, 100)):
            compare(ctx, 'extents', 'LRN', {'size': R(rng, 1, 9)}, [SH([big(rng, 1, 9) for _ in range(4)])], 1)
    with ctx.section('extents other per-element'):
        for i in range(ctx.n(8, 100)):
            c = R(rng, 1, 8)
            s = [R(rng, 1, 4), c] + [big(rng, 1, 9) for _ in range(R(rng, 1, 3))]
            v = SH([c])
            compare(ctx, 'extents', 'InstanceNormalization', {}, [SH(s), v, v], 1)
            compare(ctx, 'extents', 'BatchNormalization', {}, [SH(s), v, v, v, v], 1)
            compare(ctx, 'extents', 'LpNormalization', {'axis': 1}, [SH(s)], 1)
            compare(ctx, 'extents', 'Hardmax', {'axis': 1}, [SH(s)], 1)
            compare(ctx, 'extents', 'ImageScaler', {}, [SH(s)], 1)
            compare(ctx, 'extents', 'QuantizeLinear', {'axis': 1}, [SH(s), np.float32(.5).reshape(()), np.uint8(3).reshape(())], 1)
            compare(ctx, 'extents', 'DequantizeLinear', {'axis': 1}, [SH(s, np.uint8), np.float32(.5).reshape(()), np.uint8(3).reshape(())], 1)
            compare(ctx, 'extents', 'GlobalAveragePool', {}, [SH(s)], 1)
            compare(ctx, 'extents', 'LayerNormalization', {'axis': R(rng, -len(s), len(s) - 1)}, [SH(s), v], 1)
    with ctx.section('extents reductions'):
        for op in M.REDUCE:
            for i in range(ctx.n(6, 80)):
                s = [R(rng, 1, 6) if op == 'ReduceL2' else big(rng, 1, 9) for _ in range(R(rng, 1, 5))]
                at = {'keepdims': R(rng, 0, 1)}
                if rng.random() < .7:
                    at['axes'] = sorted(int(v) for v in rng.permutation(len(s))[:R(rng, 1, len(s))])
                compare(ctx, 'extents', op, at, [SH(s)], 1)
    with ctx.section('extents matmul'):
        for i in range(ctx.n(60, 800)):
            m, k, n = big(rng), big(rng), big(rng)
            full = [big(rng, 1, 5) for _ in range(R(rng, 0, 3))]
            f = lambda: [d if rng.random() < .7 else 1 for d in full][R(rng, 0, len(full)):]
            a, b = f() + [m, k], f() + [k, n]
            u = rng.random()
            if u < .1:
                a = [k]
            elif u < .2:
                b = [k]
            z = np.uint8(0).reshape(())
            if rng.random() < .3 and u >= .2:
                compare(ctx, 'extents', 'MatMulInteger', {}, [SH(a, np.uint8), SH(b, np.uint8)] + [z] * R(rng, 0, 2), 1)
                sc = np.float32(1).reshape(())
                compare(ctx, 'extents', 'QLinearMatMul', {}, [SH(a, np.uint8), sc, z, SH(b, np.uint8), sc, z, sc, z], 1)
            compare(ctx, 'extents', 'MatMul', {}, [SH(a), SH(b)], 1)
            ta, tb = R(rng, 0, 1), R(rng, 0, 1)
            gi = [SH([k, m] if ta else [m, k]), SH([n, k] if tb else [k, n])]
            if rng.random() < .5:
                gi.append(SH(pick(rng, [[n], [m, n], [1], []])))
            compare(ctx, 'extents', 'Gemm', {'transA': ta, 'transB': tb}, gi, 1)
    with ctx.section('extents convolution'):
        for i in range(ctx.n(80, 1000)):
            nd = R(rng, 1, 3)
            g = R(rng, 1, 4)
            ci, co = g * R(rng, 1, 9), g * R(rng, 1, 9)
            ks = [R(rng, 1, 7) for _ in range(nd)]
            sp = [R(rng, 14, 300) for _ in range(nd)]
            at = {'group': g, 'strides': [R(rng, 1, 3) for _ in range(nd)], 'dilations': [R(rng, 1, 2) for _ in range(nd)],
                  'pads': [R(rng, 0, 3) for _ in range(2 * nd)]}
            if rng.random() < .8:
                at['kernel_shape'] = ks
            x, w = SH([R(rng, 1, 4), ci] + sp), SH([co, ci // g] + ks)
            wt = SH([ci, co // g] + ks)
            b = [SH([co])] if rng.random() < .5 else []
            compare(ctx, 'extents', 'Conv', at, [x, w] + b, 1)
            compare(ctx, 'extents', 'ConvTranspose', {k: v for k, v in at.items()}, [x, wt] + b, 1)
            sc, z = np.float32(1).reshape(()), np.uint8(0).reshape(())
            compare(ctx, 'extents', 'QLinearConv', at, [SH(x.shape, np.uint8), sc, z, SH(w.shape, np.uint8), sc, z, sc, z] +
                    [SH(q.shape, np.int32) for q in b], 1)
            compare(ctx, 'extents', 'ConvInteger', at, [SH(x.shape, np.uint8), SH(w.shape, np.uint8)] + ([z] if rng.random() < .5 else []), 1)
            pk = {'kernel_shape': ks, 'strides': at['strides']}
            compare(ctx, 'extents', 'MaxPool', pk, [x], 1)
            compare(ctx, 'extents', 'AveragePool', pk, [x], 1)
    with ctx.section('extents recurrent'):
        for i in range(ctx.n(30, 300)):
            T, B, I, H, D = big(rng), big(rng), big(rng), big(rng), R(rng, 1, 2)
            for op, ga in (('LSTM', 4), ('GRU', 3)):
                ins = [SH([T, B, I]), SH([D, ga * H, I]), SH([D, ga * H, H])]
                if rng.random() < .7:
                    ins.append(SH([D, 2 * ga * H]))
                compare(ctx, 'extents', op, {'hidden_size': H, 'direction': 'bidirectional' if D == 2 else 'forward'}, ins, 1)
    with ctx.section('extents resize'):
        for i in range(ctx.n(20, 200)):
            s = [1, R(rng, 1, 9), R(rng, 1, 50), R(rng, 1, 50)]
            t = [1, s[1], R(rng, 1, 400), R(rng, 1, 400)]
            for mode in ('nearest', 'linear', 'cubic'):
                compare(ctx, 'extents', 'Resize', {'mode': mode}, [SH(s), None, None, np.asarray(t, np.int64)], 1)
            compare(ctx, 'extents', 'Resize', {}, [SH(s), None, None, np.asarray(t, np.int64)], 1)
    with ctx.section('fused attention'):
        fused(ctx)
    with ctx.section('fused layers'):
        fused_layers(ctx)


def fused_run(op, attrs, ins, outs):
    from onnx_tool.node import create_node, TmpNodeProto
    from onnx_tool.tensor import create_tensor, DYNAMIC_TENSOR
    nod = create_node(TmpNodeProto('n', op, attrs))
    it = []
    for k, a in enumerate(ins):
        if isinstance(a, SH):
            it.append(create_tensor('i%d' % k, DYNAMIC_TENSOR, list(a.shape), np.float32))
        else:
            t = create_tensor('i%d' % k, DYNAMIC_TENSOR, list(np.shape(a)), np.int64)
            t.update_tensor(a)
            it.append(t)
    ot = [create_tensor('o', DYNAMIC_TENSOR, list(outs), np.float32)]
    with quiet():
        r = nod.profile(it, ot)
    return nod, r


def fused(ctx):
    rng = ctx.rng
    for i in range(ctx.n(60, 600)):
        b, s, n, h = big(rng, 1, 8), big(rng, 1, 64), R(rng, 1, 64), R(rng, 1, 256)
        kv = max(1, n // R(rng, 1, 8))
        past = R(rng, 0, 5000)
        four = rng.random() < .3
        q = SH([b, n, s, h] if four else [b, s, n * h])
        op = pick(rng, ['SDPA', 'SDPA', 'GQA', 'MQA'])
        at = {'head_num': n, 'head_size': h, 'kv_head_num': kv}
        ins = [q, SH([b, s, kv * h]), SH([b, s, kv * h])]
        cache = rng.random() < .5
        if cache:
            ins += [np.array(past, np.int64) if rng.random() < .5 else np.full((b if b < 50 else 1,), past, np.int64), SH([b, 2, past + s + R(rng, 0, 9), kv * h])]
        sig = (op, b, s, n, h, kv, past if cache else None, four)
        ctx.eval(sig)
        try:
            nod, r = fused_run(op, at, ins, [b, s, n * h])
        except Exception as e:
            ctx.fail('fused/%s/error' % op, 'profiling raised %r on %s' % (e, sig), repr(sig))
            continue
        p = past if cache else 0
        if r[0] != M.sdpa(b, s, n, h, p):
            ctx.fail('fused/%s/macs' % op, 'reported %s, formula gives %d, for %s' % (r[0], M.sdpa(b, s, n, h, p), sig), repr(sig))
        if nod.kv_size != M.sdpa_kv(b, s, kv, h, p):
            ctx.fail('fused/%s/kv' % op, 'key/value size %s, formula gives %d, for %s' % (nod.kv_size, M.sdpa_kv(b, s, kv, h, p), sig), repr(sig))
        if r[1] != b * s * n * h:
            ctx.fail('fused/%s/io' % op, 'output elements %s, should be %d, for %s' % (r[1], b * s * n * h, sig), repr(sig))


def fused_layers(ctx):
    rng = ctx.rng

    def cmp(op, sig, got, want):
        for k, (g, w) in enumerate(zip(got, want)):
            if g != w or int(g) != g:
                ctx.fail('fused/%s/%s' % (op, ('macs', 'io', 'static')[k]), 'reported %s, formula gives %d, for %s' % (g, w, sig), repr(sig))

    for i in range(ctx.n(60, 600)):
        b, s = R(rng, 1, 9), big(rng, 1, 40)
        h, it, sh, e, k = R(rng, 1, 99), R(rng, 1, 99), R(rng, 1, 99), R(rng, 1, 64), R(rng, 1, 8)
        ng, ns = bool(rng.random() < .4), bool(rng.random() < .4)
        sig = ('MoE', b, s, h, it, sh, e, k, ng, ns)
        ctx.eval(sig)
        at = {'hidden_size': h, 'moe_intermediate_size': it, 'shared_expert_intermediate_size': sh, 'num_experts': e,
              'num_experts_per_tok': k, 'no_shared_gate': ng, 'no_shared_expert': ns}
        cmp('MoE', sig, fused_run('MoE', at, [SH([b, s, h])], [b, s, h])[1], M.moe(b, s, h, it, sh, e, k, ng, ns))
        nq, nv, dq, dv, ck = R(rng, 1, 9), R(rng, 1, 9), R(rng, 1, 64), R(rng, 1, 64), R(rng, 1, 5)
        sig = ('GDN', b, s, h, nq, nv, dq, dv, ck)
        ctx.eval(sig)
        at = {'hidden_size': h, 'num_q_heads': nq, 'num_v_heads': nv, 'qk_head_dim': dq, 'v_head_dim': dv, 'conv_kernel': ck}
        cmp('GDN', sig, fused_run('GDN', at, [SH([b, s, nq * dq]), SH([b, s, nq * dq]), SH([b, s, nv * dv])], [b, s, h])[1],
            M.gdn(b, s, h, nq, nv, dq, dv, ck))
        g = R(rng, 1, 4)
        n, hd, rd = g * R(rng, 1, 4), R(rng, 8, 64), R(rng, 1, 8)
        qr, orr, w, cr = R(rng, 1, 40), R(rng, 1, 40), R(rng, 1, 50), pick(rng, [0, 0, 4, 4, 2, 128])
        inn, ind, tk = R(rng, 1, 9), R(rng, 1, 40), R(rng, 1, 50)
        at = {'dim': h, 'n_heads': n, 'head_dim': hd, 'q_lora_rank': qr, 'o_lora_rank': orr, 'o_groups': g, 'rope_head_dim': rd,
              'window_size': w, 'compress_ratio': cr, 'index_n_heads': inn, 'index_head_dim': ind, 'index_topk': tk}
        sig = ('MLA', b, s) + tuple(at.values())
        ctx.eval(sig)
        cmp('MLA', sig, fused_run('MLA', at, [SH([b, s, h])], [b, s, h])[1], M.mla(b, s, h, n, hd, qr, orr, g, rd, w, cr, inn, ind, tk))
        r = R(rng, 1, 64)
        v = big(rng, 2, 999)
        ctx.eval(('Gather', b, s, h, v))
        cmp('Gather', ('Gather', b, s, h, v), fused_run('Gather', {'axis': 0}, [SH([v, h]), SH([b, s])], [b, s, h])[1], (0, b * s * h, b * s * h))
        cmp('Rope', ('Rope', b, s, h), fused_run('Rope', {}, [SH([b, s, h])], [b, s, h])[1], (b * s * h * M.ROPE, b * s * h, 0))
