"""Weight quantisation: numpy oracle for codes, groups, packing and the graph rewriting."""
import os
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh
from .opgen import R, pick
from .core import quiet, short
from . import models


def weight(rng, shape):
    k = R(rng, 0, 6)
    a = rng.standard_normal(shape) * 10.0 ** R(rng, -3, 3)
    if k == 0:
        a = np.zeros(shape)
    elif k == 1:
        a = np.abs(a) + 1
    elif k == 2:
        a = -np.abs(a) - 1
    elif k == 3:
        a = np.full(shape, float(a.flat[0]))
    elif k == 4 and a.ndim == 2:
        a[R(rng, 0, shape[0] - 1)] = 0
    elif k == 5:
        a = np.round(a)
    return a.astype(np.float32)


def groups(shape, block):
    """group label of every element"""
    if block == 0:
        return np.zeros(shape, int)
    if block == -1:
        n = int(np.prod(shape[:-1]))
        return np.arange(n).reshape(shape[:-1])[..., None] + np.zeros(shape, int)
    nb = -(-shape[1] // block)
    return np.arange(shape[0])[:, None] * nb + np.arange(shape[1])[None, :] // block


def judge(ctx, key, w, Q, s, z, block, kind, bits, rep, half=False):
    w, Q = w.astype(np.float64), np.asarray(Q).astype(np.int64)
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if kind == 'sym' else (0, 2 ** bits - 1)
    if Q.shape != w.shape:
        return ctx.fail(key + '/shape', 'codes have shape %s, weight %s' % (Q.shape, w.shape), rep)
    lab = groups(w.shape, block)
    s, z = np.asarray(s, dtype=np.float64).reshape(-1), np.asarray(z).astype(np.int64).reshape(-1)
    ng = lab.max() + 1
    if s.size != ng or z.size != ng:
        return ctx.fail(key + '/groups', '%d scales and %d zero points for %d groups' % (s.size, z.size, ng), rep)
    if Q.min() < lo or Q.max() > hi:
        ctx.fail(key + '/range', 'codes %d..%d outside %d..%d' % (Q.min(), Q.max(), lo, hi), rep)
    if z.min() < (0 if kind == 'sym' else lo) or z.max() > (0 if kind == 'sym' else hi):
        ctx.fail(key + '/zero-point', 'zero points %s' % z, rep)
    tol = 2e-3 if half else 1e-5
    for g in range(ng):
        m = lab == g
        x, q = w[m], Q[m]
        ref = max(abs(x.min()), abs(x.max())) if kind == 'sym' else max(x.max(), 0) - min(x.min(), 0)
        n = 2 ** (bits - 1) - 1 if kind == 'sym' else 2 ** bits - 1
        if ref == 0:
            if (q != z[g]).any():
                ctx.fail(key + '/zeros', 'all-zero group %d has codes %s, zero point %d' % (g, q, z[g]), rep)
            continue
        if abs(s[g] * n - ref) > ref * tol + (6.1e-8 * n if half else 0):
            ctx.fail(key + '/statistics', 'scale %r of group %d, its own range gives %r' % (s[g], g, ref / n), rep)
        err = np.abs((q - z[g]) * s[g] - x).max()
        if err > s[g] / 2 + ref * tol + (s[g] * tol + 6.1e-8) * n * (1 if half else 0):
            ctx.fail(key + '/error', 'error %r above half a step %r in group %d' % (err, s[g] / 2, g), rep)
        if (q[x == 0] != z[g]).any():
            ctx.fail(key + '/exact-zero', 'a zero weight is coded as %s, zero point %d' % (q[x == 0], z[g]), rep)


def unpack(P, n, kind):
    P = P.astype(np.int64)
    a = np.stack([P % 16, P // 16], -1).reshape(P.shape[:-1] + (-1,))
    bad = a.shape[-1] < n
    a = a[..., :n]
    return None if bad else a if kind == 'asym' else np.where(a >= 8, a - 16, a)


def rand_model(rng):
    """MatMul / Gemm graphs sharing weights, with other constants"""
    nodes, ini, ins = [], {}, {}
    k, n = R(rng, 1, 6), R(rng, 1, 6)
    w = weight(rng, (k, n))
    x = 'x'
    ins['x'] = (2, k)
    tb = {}
    for i in range(R(rng, 1, 3)):
        t = pick(rng, ['MatMul', 'Gemm', 'GemmB', 'MatMul'])
        first = not nodes
        # one weight reused by nodes of the same orientation, or a fresh one
        if t == 'GemmB':
            nm, arr = 'wt', w.T.copy()
        else:
            nm, arr = 'w', w
        if rng.random() < .3:
            nm, arr = 'v%d' % i, weight(rng, arr.shape)
        ini.setdefault(nm, arr)
        inp, at = ['x', nm], {}
        if t != 'MatMul' and rng.random() < .6:
            ini['b%d' % i] = weight(rng, (n,))
            inp.append('b%d' % i)
        if t == 'GemmB':
            at['transB'] = 1
        nodes.append(oh.make_node('MatMul' if t == 'MatMul' else 'Gemm', inp, ['y%d' % i], 'n%d' % i, **at))
    dt = pick(rng, [np.float32, np.float32, np.float16, np.float64])
    outs = [oh.make_tensor_value_info('y%d' % i, oh.np_dtype_to_tensor_dtype(np.dtype(dt)), [2, n]) for i in range(len(nodes))]
    g = oh.make_graph(nodes, 'g', [oh.make_tensor_value_info('x', oh.np_dtype_to_tensor_dtype(np.dtype(dt)), [2, k])], outs,
                      [nh.from_array(a.astype(dt), nm) for nm, a in ini.items()])
    return oh.make_model(g, opset_imports=[oh.make_opsetid('', 13)])


def snap(g):
    return {n: (d.op_type, list(d.input), list(d.output)) for n, d in g.nodemap.items()}


def run(ctx):
    import onnx_tool
    import onnx_tool.quantization as q
    rng = ctx.rng
    with ctx.section('tensor'):
        for _ in range(ctx.n(500, 6000)):
            block = pick(rng, [0, -1, -1, 1, 2, 3, 4, 7])
            rank = 2 if block > 0 else R(rng, 1, 4)
            w = weight(rng, tuple(R(rng, 1, 6) for _ in range(rank)))
            kind, bits = pick(rng, ['sym', 'asym']), pick(rng, [2, 3, 4, 5, 8, 8, 12, 16])
            rep = {'w': w, 'block': block, 'type': kind, 'bits': bits}
            ctx.eval(('t', w.shape, block, kind, bits, float(w.flat[0])), rep)
            if block == -1 and rank == 1:
                continue
            if block == -1 and rank > 2:        # rows are the leading dimension only for matrices
                continue
            try:
                with quiet():
                    Q, s, z = q.quantize(w.copy(), block, kind, bits)
            except Exception as e:
                ctx.fail('tensor/error', '%r' % e, rep)
                continue
            judge(ctx, 'tensor', w, Q, s, z, block, kind, bits, rep)
        ctx.notes.append('channel and block granularity on matrices, per-tensor on ranks 1-4')
    with ctx.section('pack'):
        for _ in range(ctx.n(150, 2000)):
            a = rng.integers(-8, 16, tuple(R(rng, 1, 6) for _ in range(R(rng, 1, 3)))).astype(pick(rng, [np.int32, np.int8]))
            ctx.eval(('p', a.shape, a.tobytes()), a)
            try:
                P = q.pack_4bits(a)
            except Exception as e:
                ctx.fail('pack/error', '%r' % e, {'codes': a})
                continue
            u = unpack(P, a.shape[-1], 'asym')
            if P.dtype != np.uint8 or P.shape != a.shape[:-1] + (-(-a.shape[-1] // 2),) or u is None or (u != a.astype(int) % 16).any():
                ctx.fail('pack', 'packing %s gives %s' % (a, P), {'codes': a})
    with ctx.section('graph'):
        for _ in range(ctx.n(250, 3000)):
            if ctx.timeup():
                break
            m = rand_model(rng)
            g = models.load(m)
            ini = {i.name: nh.to_array(i) for i in m.graph.initializer}
            todo = sorted(n for n in ini if rng.random() < .6)
            if rng.random() < .2:
                todo.append('x')
            block, kind, bits = pick(rng, [0, -1, 1, 2, 3, 32]), pick(rng, ['sym', 'asym']), pick(rng, [8, 8, 4, 4, 6, 2])
            rep = {'model': models.text(m), 'quantise': todo, 'block': block, 'type': kind, 'bits': bits, 'weights': ini}
            ctx.eval(('g', snap(g), todo, block, kind, bits), rep)
            before = snap(g)
            keep = {n: g.tensormap[n].numpy.copy() for n in g.initials}
            inputs, outputs = list(g.input), list(g.output)
            try:
                with quiet():
                    for t in todo:
                        q.graph_quantize(g, t, block, kind, bits)
                        q.graph_quantize(g, t + '_ot_q', block, kind, bits)
            except Exception as e:
                ctx.fail('graph/error', '%r' % e, rep)
                continue
            done = [t for t in todo if t in ini and ini[t].ndim == 2]
            suf = ['_ot_q', '_ot_s'] + (['_ot_z'] if kind == 'asym' else [])
            exp = {n: (op, [e for i in ins for e in ([i + x for x in suf] if i in done else [i])], outs) for n, (op, ins, outs) in before.items()}
            if snap(g) != exp or list(g.input) != inputs or list(g.output) != outputs:
                ctx.fail('graph/nodes', 'nodes %s, expected %s' % (snap(g), exp), rep)
                continue
            d = models.relations_ok(g)
            if d:
                ctx.fail('graph/relations', d, rep)
            want = sorted([n for n in keep if n not in done] + [t + x for t in done for x in suf])
            if sorted(g.initials) != want or any(t in g.tensormap for t in done):
                ctx.fail('graph/initials', 'constants %s, expected %s' % (sorted(g.initials), want), rep)
                continue
            for n in keep:
                if n not in done and not (keep[n].dtype == g.tensormap[n].numpy.dtype and np.array_equal(keep[n], g.tensormap[n].numpy)):
                    ctx.fail('graph/other-constant', 'constant %s changed' % n, rep)
            if rng.random() < .3:       # what was saved and loaded again
                f = os.path.join(ctx.tmp, 'q.onnx')
                with quiet():
                    g.save_model(f)
                mm = onnx.load(f)
                have = {i.name: nh.to_array(i) for i in mm.graph.initializer}
            else:
                have = {n: g.tensormap[n].numpy for n in g.initials}
            for t in done:
                nd = next(d for d in m.graph.node if t in d.input)
                tb = next((a.i for a in nd.attribute if a.name == 'transB'), 0)
                w = ini[t].astype(np.float32)
                w = w if tb else w.T
                Q, s = have[t + '_ot_q'], have[t + '_ot_s']
                z = have[t + '_ot_z'] if kind == 'asym' else np.zeros(s.shape, int)
                if bits == 4:
                    if Q.dtype != np.uint8 or s.dtype != np.float16:
                        ctx.fail('graph/packed-types', '%s %s' % (Q.dtype, s.dtype), rep)
                    Q = unpack(Q, w.shape[1], kind)
                    if Q is None:
                        ctx.fail('graph/packed-shape', 'codes of %s lost' % t, rep)
                        continue
                    if np.abs(w).max() / 7 > 6e4:
                        continue
                if bits == 8 and Q.dtype != (np.uint8 if kind == 'asym' else np.int8):
                    ctx.fail('graph/code-type', '%s' % Q.dtype, rep)
                judge(ctx, 'graph', w, Q, s, z, block, kind, bits, rep, bits == 4)
