"""Memory plans of random graphs against lifetimes and byte ranges recomputed from the node list."""
import numpy as np
from .opgen import R, pick
from .core import quiet
from . import models
from .c08 import gload, gtext, edit

DT = [np.float32, np.float16, np.int64, np.int8, np.float64, np.bool_]


def lives(g):
    """tensor -> (first, last) position of the executed nodes at which it must be stored"""
    order = list(g.nodemap)
    live = {}
    for t in g.input:
        if t == '':
            continue
        live[t] = [0, 0]
    for k, n in enumerate(order):
        nd = g.nodemap[n]
        for o in nd.output:
            if o:
                live[o] = [k, k]
        for i in nd.input:
            if i in live:
                live[i][1] = max(live[i][1], k)
    for o in g.output:
        if o in live:
            live[o][1] = len(order) - 1
    return live


def judge(ctx, g, sizes, plan, total, pad, rep, key='plan'):
    live = lives(g)
    want = {t for t in live if t and sizes.get(t, 0) > 0}
    if set(plan) - {''} != want:
        return ctx.fail(key + '/tensors', 'planned %s, non-empty activations are %s' % (sorted(plan), sorted(want)), rep)
    for t in want:
        o, s = plan[t]
        if o < 0 or o + s > total:
            ctx.fail(key + '/inside', '%s at %d size %d outside total %d' % (t, o, s, total), rep)
        if s < sizes[t]:
            ctx.fail(key + '/size', '%s needs %d, got %d' % (t, sizes[t], s), rep)
        if o % pad:
            ctx.fail(key + '/aligned', '%s starts at %d, alignment %d' % (t, o, pad), rep)
    ts = sorted(want)
    for i, a in enumerate(ts):
        for b in ts[i + 1:]:
            (f, l), (f2, l2) = live[a], live[b]
            if f <= l2 and f2 <= l and plan[a][0] < plan[b][0] + plan[b][1] and plan[b][0] < plan[a][0] + plan[a][1]:
                ctx.fail(key + '/overlap', '%s %s live %s and %s %s live %s' % (a, plan[a], live[a], b, plan[b], live[b]), rep)
    if total != max([o + s for o, s in plan.values()] or [0]):
        ctx.fail(key + '/total', 'total %d, largest end %s' % (total, max([o + s for o, s in plan.values()] or [0])), rep)


def run(ctx):
    rng = ctx.rng
    with ctx.section('dags'):
        for _ in range(ctx.n(1500, 30000)):
            if ctx.timeup():
                break
            gp = models.dag(rng, R(rng, 1, 25), optional=rng.random() < .3)
            if rng.random() < .3:
                for n in gp.node:       # a node that uses one tensor several times
                    if len(n.input) > 1 and rng.random() < .5:
                        n.input[1] = n.input[0]
            g = gload(gp)
            sizes = {}
            style = R(rng, 0, 3)
            for t in g.dynamics:
                dt = np.dtype(pick(rng, DT))
                if style == 0:
                    sh = [R(rng, 1, 40) * pick(rng, [1, 64, 1000])]
                elif style == 1:
                    sh = [pick(rng, [0, 1, 16, 1024, 5000])]
                elif style == 2:
                    sh = [R(rng, 0, 4) for _ in range(R(rng, 0, 4))]
                else:
                    sh = [pick(rng, [1024, 2048, 4096])]
                tn = g.tensormap[t]
                tn.update_shape(list(sh))
                tn.update_dtype(dt.type)
                sizes[t] = int(np.prod(sh, dtype=np.int64)) * dt.itemsize
            pad = pick(rng, [64, 64, 1, 7, 16, 256, 4096, 10000])
            rep = {'nodes': gtext(gp), 'outputs': list(g.output), 'inputs': list(g.input), 'sizes': sizes, 'padding': pad}
            ctx.eval(('d', str(rep)), rep)
            try:
                with quiet():
                    plan, total = g.compress_memory(pad)
                    again = g.compress_memory(pad)
            except Exception as e:
                ctx.fail('plan/error', '%r' % e, rep)
                continue
            judge(ctx, g, sizes, plan, total, pad, rep)
            if (plan, total) != again:
                ctx.fail('plan/repeat', 'a second call gives another plan', rep)
            if rng.random() < .5:
                # the same graph planned again for other sizes
                for t in g.dynamics:
                    if rng.random() < .6:
                        g.tensormap[t].update_shape([pick(rng, [0, 1, 100, 1024, 5000, 70000])])
                        g.tensormap[t].update_dtype(np.uint8)
                        sizes[t] = g.tensormap[t].get_shape()[0]
                with quiet():
                    plan, total = g.compress_memory(64)
                judge(ctx, g, sizes, plan, total, 64, dict(rep, sizes=dict(sizes), padding=64, how='second plan'))
    with ctx.section('edited'):
        for _ in range(ctx.n(300, 6000)):
            if ctx.timeup():
                break
            gp = models.dag(rng, R(rng, 2, 15), optional=False)
            for n in gp.node:
                if len(n.input) > 1 and rng.random() < .3:
                    n.input[1] = n.input[0]
            g = gload(gp)
            log = []
            try:
                with quiet():
                    for k in range(R(rng, 1, 4)):
                        d = edit(rng, g, k)
                        if d:
                            log.append(d)
                    g.graph_reorder_nodes()
                    log.append('graph_reorder_nodes()')
                    g.update_tensor_relations() if rng.random() < .3 else None
            except Exception:
                continue            # judged by the checks of the edits themselves
            if not g.nodemap:
                continue
            prod = {o for n in g.nodemap.values() for o in n.output}
            sizes = {}
            for t in list(lives(g)):
                if t not in g.tensormap or t == '':
                    continue
                g.tensormap[t].update_shape([R(rng, 1, 6) * 1024])
                sizes[t] = 4 * g.tensormap[t].get_shape()[0]
                g.tensormap[t].update_dtype(np.float32)
            rep = {'nodes': gtext(gp), 'edits': log, 'graph': models.of_graph(g), 'outputs': list(g.output), 'sizes': sizes}
            ctx.eval(('e', str(rep)), rep)
            try:
                with quiet():
                    plan, total = g.compress_memory()
            except Exception as e:
                ctx.fail('edited/error', '%r' % e, rep)
                continue
            judge(ctx, g, sizes, plan, total, 64, rep, 'edited')
    with ctx.section('models'):
        for _ in range(ctx.n(60, 800)):
            if ctx.timeup():
                break
            m, feeds, outs, vals = models.model(rng, 2, 10, shuffle=False)
            g = models.load(m)
            rep = models.text(m)
            try:
                with quiet():
                    g.shape_infer({k: v for k, v in feeds.items()})
                    plan, total = g.compress_memory()
            except Exception as e:
                ctx.fail('models/error', '%r' % e, rep)
                continue
            ctx.eval(('m', rep), rep)
            want = models.values(m, feeds, [t for t in lives(g)])
            judge(ctx, g, {t: want[t].nbytes for t in want}, plan, total, 64, rep, 'models')
