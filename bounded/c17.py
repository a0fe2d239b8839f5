"""Sparsity: fractions counted one element / one block at a time, on arrays and on loaded models with their tables."""
import io, os
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh
from .opgen import R, pick
from .core import quiet, short
from . import models

TYPES = ['float32', 'float64', 'float16', 'int32', 'int8', 'uint8']


def weight(rng, shape, dt):
    z = 128 if dt == 'uint8' else 0
    x = rng.integers(1, 100, shape).astype(dt)
    for _ in range(R(rng, 0, 2)):
        blk = [int(pick(rng, [b for b in (1, 2, 4, 8, 16, 32) if n % b == 0])) if k < 2 else 1 for k, n in enumerate(shape)]
        m = rng.random([n // b for n, b in zip(shape, blk)]) < pick(rng, [.2, .42, .6, .8, .97])
        for k, b in enumerate(blk):
            m = np.repeat(m, b, k)
        x[m] = z
    if rng.random() < .1:
        x[...] = z
    return x


def count(x, size):
    """(blocks that are zero throughout, blocks), walking over them"""
    z = 128 if x.dtype == np.uint8 else 0
    n = tot = 0
    for i in np.ndindex(*[d // s for d, s in zip(x.shape, size)]):
        b = x[tuple(slice(a * s, a * s + s) for a, s in zip(i, size))]
        n += bool((b == z).all())
        tot += 1
    return n, tot


def judge(ctx, key, x, blk, ratio, rep):
    a, b = (int(e) for e in blk)
    if a < 1 or b < 1 or x.shape[0] % a or x.shape[1] % b:
        return ctx.fail(key + '/divides', 'block %s does not divide the extents %s' % (blk, x.shape), rep)
    n, tot = count(x, [a, b] + [1] * (x.ndim - 2))
    if abs(ratio - n / tot) > 1e-12:
        ctx.fail(key + '/ratio', 'block %s reported %r, %d of %d blocks are zero' % (blk, ratio, n, tot), rep)


def elements(x):
    return float((x == (128 if x.dtype == np.uint8 else 0)).sum()) / x.size


def run(ctx):
    import onnx_tool
    import onnx_tool.tensor as T
    rng = ctx.rng
    with ctx.section('arrays'):
        for _ in range(ctx.n(250, 4000)):
            if ctx.timeup():
                break
            dt = pick(rng, TYPES)
            shape = [R(rng, 1, 20) * pick(rng, [1, 2, 4]) for _ in range(2)] + [R(rng, 1, 3) for _ in range(pick(rng, [0, 0, 2]))]
            x = weight(rng, shape, dt)
            rep = {'x': x, 'dtype': dt}
            ctx.eval(('a', dt, shape, x.tobytes()[:200]), (dt, shape))
            try:
                r = T.narray_calc_sparsity(x)
                if abs(r - elements(x)) > 1e-12:
                    ctx.fail('arrays/fraction', 'reported %r, exact %r' % (r, elements(x)), rep)
                blk, br = T.search_sparse_blocksize(x, elements(x), pick(rng, [.1, .1, 0., .3]))
                judge(ctx, 'arrays/block', x, blk, br, rep)
            except Exception as e:
                ctx.fail('arrays/error', '%r' % e, rep)
    with ctx.section('models'):
        for _ in range(ctx.n(60, 600)):
            if ctx.timeup():
                break
            ws, nodes, outs = {}, [], []
            kind = pick(rng, ['MatMul', 'Conv'])
            dt = pick(rng, ['float32', 'float32', 'float64', 'float16'])
            c = R(rng, 3, 6) * 16
            for k in range(R(rng, 1, 3)):
                sh = (c, R(rng, 1, 8) * pick(rng, [1, 8, 16])) if kind == 'MatMul' else (R(rng, 1, 6) * 8, c) + pick(rng, [(1, 1), (3, 3), (2, 1)])
                ws['w%d' % k] = weight(rng, sh, dt)
                nodes.append(oh.make_node(kind, ['x', 'w%d' % k], ['y%d' % k], 'n%d' % k))
            code = oh.np_dtype_to_tensor_dtype(np.dtype(dt))
            x = oh.make_tensor_value_info('x', code, (2, c) if kind == 'MatMul' else (1, c, 5, 5))
            g0 = oh.make_graph(nodes, 'g', [x], [oh.make_tensor_value_info('y%d' % k, code, None) for k in range(len(nodes))],
                               [nh.from_array(a, n) for n, a in ws.items()])
            m = oh.make_model(g0)
            rep = {'shapes': {n: a.shape for n, a in ws.items()}, 'dtype': dt, 'weights': {n: a for n, a in ws.items() if a.size < 6000}}
            ctx.eval(('m', kind, dt, [a.shape for a in ws.values()], [elements(a) for a in ws.values()]), rep['shapes'])
            try:
                g = models.load(m)
                with quiet():
                    g.shape_infer()
                    g.profile()
                sparse = any(a.size > 4096 and elements(a) > .4 for a in ws.values())
                if bool(g.sparse_model) != sparse:
                    ctx.fail('models/sparse-flag', 'model reported %ssparse, largest fraction %r' % ('' if g.sparse_model else 'not ', max(elements(a) for a in ws.values())), rep)
                for k, (n, a) in enumerate(ws.items()):
                    s = g.tensormap[n].sparsity
                    f = elements(a)
                    if a.size > 4096:
                        if abs(s['ratio'] - f) > 1e-12:
                            ctx.fail('models/fraction', '%s reports %r, exact %r' % (n, s['ratio'], f), rep)
                        if f > .4:
                            judge(ctx, 'models/block', a, s['blocksize'], s['blockratio'], rep)
                        elif tuple(s['blocksize']) != (1, 1) or s['blockratio'] != 0:
                            ctx.fail('models/dense', 'dense %s (fraction %r) reported as %s' % (n, f, s), rep)
                    elif s['ratio'] not in (0,) and abs(s['ratio'] - f) > 1e-12:
                        ctx.fail('models/small', '%s reports %s, exact %r' % (n, s, f), rep)
                    ns = g.nodemap['n%d' % k].sparsity
                    if ns['ratio'] != s['ratio'] or (s['ratio'] > 0 and (ns['blocksize'], ns['blockratio']) != (s['blocksize'], s['blockratio'])):
                        ctx.fail('models/node', 'node n%d reports %s, its weight %s' % (k, ns, s), rep)
                f = os.path.join(ctx.tmp, 't.csv')
                with quiet():
                    g.print_node_map(f)
                rows = [r.split(',') for r in open(f).read().splitlines()]
                head = [h.strip() for h in rows[0]]
                if ('Sparse Ratio' in head) != sparse:
                    ctx.fail('models/table', 'header %s, sparse %s' % (head, sparse), rep)
                elif sparse:
                    for r in rows[1:]:
                        if r[0].strip() not in g.nodemap:
                            continue
                        s = g.tensormap['w' + r[0].strip()[1:]].sparsity
                        want = ('%dx%d' % tuple(s['blocksize']), '{:.2%}'.format(s['blockratio']), '{:.2%}'.format(s['ratio']))
                        got = tuple(r[head.index(h)].strip() for h in ('Sparse Pattern', 'Sparse Block Ratio', 'Sparse Ratio'))
                        if got != want:
                            ctx.fail('models/row', 'row %s shows %s, expected %s' % (r[0], got, want), rep)
            except Exception as e:
                import traceback
                ctx.fail('models/error', traceback.format_exc()[-800:], rep)
