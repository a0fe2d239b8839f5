"""Node order and tensor relations, recomputed from the nodes' input and output lists after loading and after every edit."""
import numpy as np
import onnx
from onnx import helper as oh
from . import models, opgen as og
from .opgen import R, pick
from .core import quiet, short


def gload(gp, **cfg):
    from onnx_tool.graph import Graph
    from onnx_tool.utils import ModelConfig
    with quiet():
        return Graph(onnx.GraphProto.FromString(gp.SerializeToString()), ModelConfig(dict(cfg)))


def shuffled(rng, gp):
    gp = onnx.GraphProto.FromString(gp.SerializeToString())
    nodes = [onnx.NodeProto.FromString(gp.node[int(i)].SerializeToString()) for i in rng.permutation(len(gp.node))]
    del gp.node[:]
    gp.node.extend(nodes)
    return gp


def gtext(gp):
    return [(n.name, n.op_type, list(n.input), list(n.output)) for n in gp.node]


def sig(gp):
    return [(n.op_type, len(n.input), tuple(n.input)) for n in gp.node]


def check_loaded(ctx, gp, g, tag, topo):
    rep = {'nodes': gtext(gp), 'initializers': [i.name for i in gp.initializer], 'outputs': [o.name for o in gp.output]}
    bad = models.relations_ok(g)
    if bad:
        ctx.fail('%s/relations' % tag, bad, rep)
    got = [(list(n.input), list(n.output), n.op_type) for n in g.nodemap.values()]
    want = [(list(n.input), list(n.output), n.op_type) for n in gp.node]
    if sorted(map(repr, got)) != sorted(map(repr, want)):
        ctx.fail('%s/nodes' % tag, 'loaded nodes %s, file has %s' % (short(got), short(want)), rep)
    ini = {i.name for i in gp.initializer}
    prod = {o for n in gp.node for o in n.output if o}
    used = {i for n in gp.node for i in n.input if i}
    if set(g.initials) != ini or len(g.initials) != len(ini):
        ctx.fail('%s/initials' % tag, 'constants recorded %s, file has %s' % (g.initials, sorted(ini)), rep)
    gin = used - prod - ini
    if {i for i in g.input if i} != gin or len(set(g.input)) != len(g.input):
        ctx.fail('%s/inputs' % tag, 'graph inputs recorded %s, implied %s' % (g.input, sorted(gin)), rep)
    outs = [o.name for o in gp.output]
    if set(g.output) != set(outs):
        ctx.fail('%s/outputs' % tag, 'graph outputs recorded %s, file has %s' % (g.output, outs), rep)
    if {d for d in g.dynamics if d} != gin | prod:
        ctx.fail('%s/dynamics' % tag, 'computed tensors and inputs recorded %s, implied %s' % (sorted(g.dynamics), sorted(gin | prod)), rep)
    # constant-valued: initializers and results of nodes whose inputs are all constant
    const = set(ini)
    for _ in gp.node:
        for n in gp.node:
            if all(i in const for i in n.input if i) and n.op_type != 'DequantizeLinear':
                const.update(n.output)
    from onnx_tool.tensor import STATIC_TENSOR
    for t in sorted(ini | prod | gin):
        st = g.tensormap[t].type == STATIC_TENSOR
        if st != (t in const):
            ctx.fail('%s/class' % tag, 'tensor %s recorded as %s, comes from %s' %
                     (t, 'constant' if st else 'not constant', 'constants only' if t in const else 'graph inputs'), rep)
    if topo:
        p, c = models.structure(models.of_graph(g))
        for n, nd in g.nodemap.items():
            pr = {q for i in nd.input for q in p.get(i, ()) if i}
            su = {q for o in nd.output for q in c.get(o, ()) if o}
            if {x.name for x in nd.prevnodes} != pr:
                ctx.fail('%s/prev' % tag, 'node %s: recorded predecessors %s, implied %s' % (n, sorted(x.name for x in nd.prevnodes), sorted(pr)), rep)
            if {x.name for x in nd.nextnodes} != su:
                ctx.fail('%s/next' % tag, 'node %s: recorded successors %s, implied %s' % (n, sorted(x.name for x in nd.nextnodes), sorted(su)), rep)
    return rep


def check_order(ctx, g, order, names, tag, rep):
    order = list(order)
    if sorted(order) != sorted(names):
        ctx.fail('%s/nodes' % tag, 'ordered nodes %s, should be %s exactly once each' % (order, sorted(names)), rep)
        return
    bad = models.topo_ok(g, order)
    if bad:
        ctx.fail('%s/order' % tag, bad, rep)


def chains(rng, g):
    """a random connected set of nodes"""
    names = list(g.nodemap)
    cur = [pick(rng, names)]
    for _ in range(R(rng, 0, 3)):
        nxt = [q for n in cur for o in g.nodemap[n].output for q in g.consumedby.get(o, []) if q not in cur]
        if not nxt:
            break
        cur.append(pick(rng, nxt))
    return cur if convex(g, cur) else cur[:1]


def convex(g, names):
    """no path between two nodes of the set runs outside it (fusing such a set would create a cycle)"""
    seen, todo = set(), [q for n in names for o in g.nodemap[n].output for q in g.consumedby.get(o, []) if q not in names]
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        for o in g.nodemap[q].output:
            for r in g.consumedby.get(o, []):
                if r in names:
                    return False
                todo.append(r)
    return True


def edit(rng, g, k):
    """one random editing operation: (description, arguments)"""
    names = list(g.nodemap)
    if not names:
        return None
    u = R(rng, 0, 9)
    n = pick(rng, names)
    nd = g.nodemap[n]
    if u == 0:
        g.remove_node(n)
        return 'remove_node(%s)' % n
    if u == 1:
        g.remove_dangling_nodes()
        return 'remove_dangling_nodes()'
    if u == 2:
        g.remove_subtree(n)
        return 'remove_subtree(%s)' % n
    if u in (3, 4):
        ok = [n for n in names if len(g.nodemap[n].output) == 1 and sum(i in g.dynamics for i in g.nodemap[n].input) == 1]
        if ok and rng.random() < .8:
            n = pick(rng, ok)
        g.skip_node(n)
        return 'skip_node(%s)' % n
    if u in (5, 6):
        ns = chains(rng, g)
        g.fuse_subgraph_node_names(ns, 'Fused', 'f%d' % k, bool(R(rng, 0, 1)))
        return 'fuse_subgraph_node_names(%s)' % ns
    if u == 7:
        ns = chains(rng, g)
        g.fuse_postop_node_names(ns, bool(R(rng, 0, 1)))
        return 'fuse_postop_node_names(%s)' % ns
    if u == 8:
        from onnx_tool.fusion import removeShapeOps
        sh = [n for n in names if g.nodemap[n].op_type in ('Reshape', 'Flatten', 'Squeeze', 'Unsqueeze')]
        if any(len(g.nodemap[n].output) != 1 or sum(i in g.dynamics for i in g.nodemap[n].input) != 1 for n in sh):
            return None
        if len(sh) > 1:
            return None
        removeShapeOps(g)
        return 'removeShapeOps()'
    g.graph_reorder_nodes()
    return 'graph_reorder_nodes()'


def run(ctx):
    rng = ctx.rng
    with ctx.section('load'):
        for i in range(ctx.n(1500, 9000)):
            if ctx.timeup():
                return
            gp = models.dag(rng)
            ctx.eval(('load', sig(gp)), sig(gp))
            g = gload(gp)
            check_loaded(ctx, gp, g, 'load', True)
    with ctx.section('load options'):
        for i in range(ctx.n(400, 2400)):
            gp = models.dag(rng)
            ctx.eval(('load-opt', sig(gp)), sig(gp))
            g = gload(gp, node_rename=True)
            check_loaded(ctx, gp, g, 'rename', True)
            if any(n != '%s_%d' % (nd.op_type, k) for k, (n, nd) in enumerate(g.nodemap.items())):
                ctx.fail('rename/names', 'renamed nodes %s' % list(g.nodemap), gtext(gp))
            g = gload(shuffled(rng, gp))
            check_loaded(ctx, gp, g, 'any-order', False)
    with ctx.section('order'):
        for i in range(ctx.n(1500, 9000)):
            gp = shuffled(rng, models.dag(rng, R(rng, 1, 25)))
            ctx.eval(('order', sig(gp)), sig(gp))
            g = gload(gp)
            rep = {'nodes': gtext(gp)}
            names = list(g.nodemap)
            with quiet():
                check_order(ctx, g, g.topsort_nodes(g.nodemap.keys(), g.input), names, 'topsort', rep)
                sub = [n for n in names if rng.random() < .6]
                check_order(ctx, g, g.topsort_nodes(sub, []), sub, 'topsort-subset', rep)
                before = models.of_graph(g)
                g.graph_reorder_nodes()
            check_order(ctx, g, list(g.nodemap), names, 'reorder', rep)
            if sorted(map(repr, before)) != sorted(map(repr, models.of_graph(g))):
                ctx.fail('reorder/changed', 'reordering changed a node: %s to %s' % (short(before), short(models.of_graph(g))), rep)
            bad = models.relations_ok(g)
            if bad:
                ctx.fail('reorder/relations', bad, rep)
            m = oh.make_model(gp)
    with ctx.section('edits'):
        for i in range(ctx.n(300, 4000)):
            gp = models.dag(rng, R(rng, 2, 12))
            g = gload(gp)
            log = []
            ctx.eval(('edit', sig(gp), i))
            for k in range(R(rng, 1, 5)):
                try:
                    with quiet():
                        d = edit(rng, g, k)
                except Exception as e:
                    ctx.fail("edit/error", "after %s an edit raised %r: %s" % (log, e, __import__("traceback").format_exc()[-900:]), {'nodes': gtext(gp), 'edits': log})
                    break
                if d is None:
                    continue
                log.append(d)
                bad = models.relations_ok(g)
                if bad:
                    ctx.fail('edit/relations/%s' % d.split('(')[0], 'after %s: %s' % (log, bad), {'nodes': gtext(gp), 'edits': log,
                             'outputs': [o.name for o in gp.output]})
                    break
    with ctx.section('saved order'):
        import os
        from onnx_tool.model import Model
        import onnx_tool
        for i in range(ctx.n(30, 300)):
            m, feeds, outs, vals = models.model(rng, shuffle=True)
            ctx.eval(('saved', [n.op_type for n in m.graph.node]))
            p = os.path.join(ctx.tmp, 'r.onnx')
            rep = {'model': models.text(m)}
            try:
                with quiet():
                    onnx_tool.model_reorder_nodes(onnx.ModelProto.FromString(m.SerializeToString()), p)
                    mm = onnx.load(p)
            except Exception as e:
                ctx.fail('saved/error', 'reordering raised %r' % e, rep)
                continue
            seen = {x.name for x in mm.graph.input} | {x.name for x in mm.graph.initializer} | {''}
            for n in mm.graph.node:
                if any(x not in seen for x in n.input):
                    ctx.fail('saved/order', 'saved node %s uses %s before it is produced' % (n.name, [x for x in n.input if x not in seen]), rep)
                    break
                seen |= set(n.output)
            if sorted(n.name for n in mm.graph.node) != sorted(n.name for n in m.graph.node):
                ctx.fail('saved/nodes', 'saved nodes %s, file had %s' % (sorted(n.name for n in mm.graph.node), sorted(n.name for n in m.graph.node)), rep)
