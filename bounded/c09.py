"""Graph edits: node lists after the edit against a rewriting of the list before it, and evaluation of saved subgraphs."""
import os
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh
from . import models
from .opgen import R, pick
from .core import quiet, short
from .c08 import gload, gtext, chains, convex

# positions of the operands that are shapes / positions, per operator and number of operands
OPERANDS = {('Reshape', 2): (1,), ('Resize', 3): (2,), ('Resize', 4): (3,), ('Resize', 2): (1,), ('Upsample', 2): (1,), ('Expand', 2): (1,), ('Slice', 3): (1, 2), ('Slice', 4): (1, 2, 3),
            ('Slice', 5): (1, 2, 3, 4), ('ConstantOfShape', 1): (0,), ('Tile', 2): (1,), ('Range', 3): (0, 1, 2), ('OneHot', 3): (1,), ('TopK', 2): (1,), ('Pad', 2): (1,),
            ('Pad', 3): (1,), ('NonMaxSuppression', 5): (2,), ('NonMaxSuppression', 4): (2,), ('Split', 2): (1,), ('Unsqueeze', 2): (1,), ('Squeeze', 2): (1,),
            ('ReduceSum', 2): (1,), ('ReduceMean', 2): (1,)}
SHAPE_OPS = ('Flatten', 'Reshape', 'Unsqueeze', 'Squeeze')


def snap(g):
    return {n: (d.op_type, list(d.input), list(d.output)) for n, d in g.nodemap.items()}


def skipped(nodes, n, ini, outs):
    """(nodes, graph outputs) after node n is skipped, or None when it is not a node with one computed input and one output"""
    op, i, o = nodes[n]
    dyn = sorted({x for x in i if x and x not in ini})
    if len([x for x in i if x and x not in ini]) != 1 or len(o) != 1:
        return None
    d, t = dyn[0], o[0]
    made = {x for m, (_, _, os_) in nodes.items() for x in os_}
    if t in outs and d in made and d not in outs:
        old, new = d, t
    else:
        old, new = t, d
    f = lambda xs: [new if x == old else x for x in xs]
    rest = {m: (op, f(i), f(o) if old == d else list(o)) for m, (op, i, o) in nodes.items() if m != n}
    return rest, [d if x == t else x for x in outs] if old == t else list(outs)


def boundary(nodes, names, outs, ini=(), drop=False):
    """(inputs, outputs) of a group: what it reads from outside, what is read outside or returned"""
    made = {x for n in names for x in nodes[n][2] if x}
    read = {x for n in names for x in nodes[n][1] if x}
    out = {x for m in nodes if m not in names for x in nodes[m][1]}
    used = {x for m in nodes for x in nodes[m][1]}
    ins = {x for x in read - made if not (drop and x in ini)}
    return ins, {x for x in made if x in out or x in outs or x not in used}


def same_nodes(ctx, key, got, want, rep):
    if got != want:
        d = [(k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
        ctx.fail(key, '(node, after the edit, expected): %s' % short(d, 700), rep)
        return False
    return True


def with_identities(rng, m):
    """model with Identity / Dropout-like nodes put on some edges"""
    g = m.graph
    nodes, k = [], 0
    made = {i.name for i in g.input}
    ini = {i.name for i in g.initializer}
    outs = {o.name for o in g.output}
    ren = {}
    for nd in g.node:
        nd = onnx.NodeProto.FromString(nd.SerializeToString())
        for j, x in enumerate(nd.input):
            if x in made and x not in ini and rng.random() < .3:
                k += 1
                nodes.append(oh.make_node('Identity', [x], ['idt%d' % k], name='idn%d' % k))
                nd.input[j] = 'idt%d' % k
        for j, o in enumerate(nd.output):
            if o in outs and rng.random() < .3:
                k += 1
                nd.output[j] = 'pre%d' % k
                ren[o] = 'pre%d' % k
                nodes.append(nd)
                nd = None
                nodes.append(oh.make_node('Identity', ['pre%d' % k], [o], name='idn%d' % k))
                made.add(o)
                break
        if nd is not None:
            nodes.append(nd)
            made |= set(nd.output)
    mm = onnx.ModelProto.FromString(m.SerializeToString())
    del mm.graph.node[:]
    mm.graph.node.extend(nodes)
    return mm, k


def run_proto(gp, m, feeds):
    """values of the outputs of a GraphProto"""
    from onnx.reference import ReferenceEvaluator
    mm = oh.make_model(gp, opset_imports=list(m.opset_import))
    mm.ir_version = m.ir_version
    mm = onnx.ModelProto.FromString(mm.SerializeToString())
    names = [o.name for o in mm.graph.output]
    with quiet():
        return dict(zip(names, ReferenceEvaluator(mm).run(names, feeds)))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and (np.array_equal(a, b) or (a.dtype.kind == 'f' and np.allclose(a, b, rtol=1e-4, atol=1e-5, equal_nan=True)))


def all_values(m, feeds):
    t = [o for n in m.graph.node for o in n.output if o]
    v = models.values(m, feeds, t)
    v.update(feeds)
    return v


def compare(ctx, key, gp, m, feeds, ref, rep, alias=lambda n: n):
    """evaluate an extracted graph on reference values of its inputs"""
    ini = {i.name for i in gp.initializer}
    try:
        onnx.checker.check_graph(gp, onnx.checker.DEFAULT_CONTEXT)
    except Exception:
        pass
    need = [i.name for i in gp.input if i.name not in ini]
    miss = [n for n in need if alias(n) not in ref]
    if miss:
        return ctx.fail(key + '/inputs', 'declares inputs %s that are no tensors of the model' % miss, rep)
    try:
        got = run_proto(gp, m, {n: ref[alias(n)] for n in need})
    except Exception as e:
        return ctx.fail(key + '/run', 'cannot be evaluated: %r' % e, rep)
    for n, x in got.items():
        if alias(n) not in ref or not same(x, ref[alias(n)]):
            ctx.fail(key + '/values', 'tensor %s evaluates to %s, in the model it is %s' % (n, short(x, 200), short(ref.get(alias(n)), 200)), rep)


def run(ctx):
    from onnx_tool.fusion import removeShapeOps
    rng = ctx.rng
    with ctx.section('skip'):
        for i in range(ctx.n(500, 8000)):
            if ctx.timeup():
                break
            gp = models.dag(rng)
            g = gload(gp)
            rep = {'nodes': gtext(gp), 'initializers': [x.name for x in gp.initializer], 'outputs': list(g.output), 'skipped': []}
            for _ in range(R(rng, 1, 3)):
                nodes, ini, outs = snap(g), set(g.initials), list(g.output)
                ok = [n for n in nodes if skipped(nodes, n, ini, outs)]
                if not ok:
                    break
                n = pick(rng, ok)
                rep['skipped'].append(n)
                ctx.eval(('skip', str(rep)), rep)
                gin = list(g.input)
                want, wouts = skipped(nodes, n, ini, outs)
                try:
                    with quiet():
                        g.skip_node(n)
                except Exception as e:
                    ctx.fail('skip/error', '%r' % e, rep)
                    break
                if not same_nodes(ctx, 'skip/nodes', snap(g), want, rep):
                    break
                if set(g.output) != set(wouts) or list(g.input) != gin:
                    ctx.fail('skip/io', 'graph inputs %s outputs %s, expected %s and %s' % (g.input, g.output, gin, wouts), rep)
                    break
    with ctx.section('shape operators'):
        for i in range(ctx.n(150, 2500)):
            gp = models.dag(rng)
            for nd in gp.node:
                if rng.random() < .3 and len(nd.output) == 1:
                    nd.op_type = pick(rng, SHAPE_OPS)
            g = gload(gp)
            nodes, ini, outs = snap(g), set(g.initials), list(g.output)
            rep = {'nodes': gtext(gp), 'initializers': [x.name for x in gp.initializer], 'outputs': outs}
            good, w, wo = True, nodes, outs
            for n in list(nodes):
                if nodes[n][0] in SHAPE_OPS:
                    r = skipped(w, n, ini, wo)
                    if r is None:
                        good = False
                        break
                    w, wo = r
            if not good:
                continue
            ctx.eval(('shape', str(rep)), rep)
            try:
                with quiet():
                    g = removeShapeOps(g) or g
            except Exception as e:
                ctx.fail('shape/error', '%r' % e, rep)
                continue
            if same_nodes(ctx, 'shape/nodes', snap(g), w, rep) and set(g.output) != set(wo):
                ctx.fail('shape/outputs', '%s, expected %s' % (g.output, wo), rep)
    with ctx.section('fuse'):
        for i in range(ctx.n(400, 8000)):
            if ctx.timeup():
                break
            gp = models.dag(rng)
            g = gload(gp)
            rep = {'nodes': gtext(gp), 'initializers': [x.name for x in gp.initializer], 'outputs': list(g.output), 'fused': []}
            for k in range(R(rng, 1, 3)):
                nodes, outs, gin = snap(g), list(g.output), list(g.input)
                names = chains(rng, g)
                if rng.random() < .3:
                    extra = [n for n in nodes if n not in names and rng.random() < .3]
                    if convex(g, names + extra):
                        names = names + extra
                rep['fused'].append(names)
                ctx.eval(('fuse', str(rep)), rep)
                post = R(rng, 0, 1)
                ins, os_ = boundary(nodes, names, outs)
                new = names[0] if post else 'fz%d' % k
                try:
                    with quiet():
                        if post:
                            g.fuse_postop_node_names(list(names), bool(R(rng, 0, 1)))
                        else:
                            g.fuse_subgraph_node_names(list(names), 'Fused', new, bool(R(rng, 0, 1)))
                except Exception as e:
                    ctx.fail('fuse/error', '%r' % e, rep)
                    break
                got = snap(g)
                f = got.pop(new, None)
                if not same_nodes(ctx, 'fuse/others', got, {n: x for n, x in nodes.items() if n not in names}, rep):
                    break
                if f is None or sorted(f[1]) != sorted(ins) or sorted(f[2]) != sorted(os_) or f[0] != (nodes[names[0]][0] if post else 'Fused'):
                    ctx.fail('fuse/boundary', 'fused node %s, boundary %s -> %s' % (f, sorted(ins), sorted(os_)), rep)
                    break
                if set(g.output) != set(outs) or list(g.input) != gin:
                    ctx.fail('fuse/io', 'graph inputs %s outputs %s, were %s and %s' % (g.input, g.output, gin, outs), rep)
                    break
    with ctx.section('rename'):
        for i in range(ctx.n(100, 1500)):
            gp = models.dag(rng)
            a, b = gload(gp), gload(gp, node_rename=True)
            rep = {'nodes': gtext(gp)}
            ctx.eval(('rename', str(rep)), rep)
            if list(snap(a).values()) != list(snap(b).values()):
                ctx.fail('rename/nodes', 'renaming nodes changed them', rep)
            m = dict(zip(a.nodemap, b.nodemap))
            for what, x, y in (('producers', a.producedby, b.producedby), ('consumers', a.consumedby, b.consumedby)):
                if {t: sorted(m[n] for n in ns) for t, ns in x.items()} != {t: sorted(ns) for t, ns in y.items()}:
                    ctx.fail('rename/' + what, 'inconsistent names', rep)
            if any(d.name != n for n, d in b.nodemap.items()) or len(m) != len(set(m.values())) or len(m) != len(gp.node):
                ctx.fail('rename/names', 'names %s' % list(b.nodemap), rep)
    with ctx.section('skip values'):
        for i in range(ctx.n(150, 900)):
            if ctx.timeup():
                break
            m, feeds, outs, vals = models.model(rng, 2, 8)
            mm, k = with_identities(rng, m)
            if not k:
                continue
            rep = {'model': models.text(mm)}
            ctx.eval(('sv', rep['model']), rep)
            try:
                ref = models.values(m, feeds, outs)
                with quiet():
                    g = models.load(mm)
                    ids = [n for n, d in g.nodemap.items() if d.op_type == 'Identity']
                    for n in ids:
                        if rng.random() < .8:
                            g.skip_node(n)
                    gp = g.make_graph_onnx(g.nodemap.keys(), 'g', g.input, g.output)
            except Exception as e:
                ctx.fail('skipvalues/error', '%r' % e, rep)
                continue
            full = all_values(mm, feeds)
            compare(ctx, 'skipvalues', gp, m, feeds, full, rep)
            lost = [o for o in outs if o not in g.output and not (o in full and any(same(full[o], full[x]) for x in g.output if x in full))]
            if lost:
                ctx.fail('skipvalues/outputs', 'outputs %s are gone, graph outputs %s' % (lost, g.output), rep)
    with ctx.section('subgraph'):
        for i in range(ctx.n(200, 1200)):
            if ctx.timeup():
                break
            m, feeds, outs, vals = models.model(rng, 2, 10)
            rep = {'model': models.text(m)}
            try:
                with quiet():
                    g = models.load(m)
                    full = all_values(m, feeds)
                    nodes, ini, gouts = snap(g), set(g.initials), list(g.output)
                    names = [n for n in nodes if rng.random() < .5] or list(nodes)[:1]
                    rng.shuffle(names)
                    rep['extracted'] = names
                    ctx.eval(('sub', str(rep)), rep)
                    gp = g.get_onnxgraph_by_nodenames(list(names))
            except Exception as e:
                ctx.fail('subgraph/error', '%r' % e, rep)
                continue
            ins, os_ = boundary(nodes, names, gouts, ini, True)
            if sorted(n.name for n in gp.node) != sorted(names):
                ctx.fail('subgraph/nodes', 'extracted %s' % [n.name for n in gp.node], rep)
            gi = {x.name for x in gp.input} - {x.name for x in gp.initializer}
            if gi != ins or {x.name for x in gp.output} != os_:
                ctx.fail('subgraph/boundary', 'inputs %s outputs %s, boundary %s -> %s' % (sorted(gi), sorted(x.name for x in gp.output), sorted(ins), sorted(os_)), rep)
                continue
            compare(ctx, 'subgraph', gp, m, feeds, full, rep)
            if set(snap(g)) != set(nodes) or snap(g) != nodes:
                ctx.fail('subgraph/changed', 'extracting changed the graph', rep)
    with ctx.section('levels'):
        for i in range(ctx.n(200, 1200)):
            if ctx.timeup():
                break
            m, feeds, outs, vals = models.model(rng, 3, 10)
            rep = {'model': models.text(m)}
            with quiet():
                g = models.load(m)
            full = all_values(m, feeds)
            nodes = snap(g)
            made = [x for n in nodes for x in nodes[n][2] if x in g.consumedby]
            if not made:
                continue
            cut = [pick(rng, made)]
            lo = pick(rng, list(g.input) + made)
            rep['inputs'], rep['outputs'] = [lo], cut
            ctx.eval(('lvl', str(rep)), rep)
            # nodes after the outputs, nodes after the inputs only, the rest
            def after(ts):
                seen, todo = set(), list(ts)
                while todo:
                    t = todo.pop()
                    for n, (_, i, o) in nodes.items():
                        if t in i and n not in seen:
                            seen.add(n)
                            todo += o
                return seen
            l2 = after(cut)
            l1 = after([lo]) - l2
            l0 = set(nodes) - l1 - l2
            if not (l0 and l1 and l2):
                continue
            try:
                with quiet():
                    gs = g.get_subgraph([lo], cut)
            except Exception as e:
                ctx.fail('levels/error', '%r' % e, rep)
                continue
            for k, (gg, want) in enumerate(zip(gs, (l0, l1, l2))):
                if set(gg.nodemap) != want or any(snap(gg)[n] != nodes[n] for n in want):
                    ctx.fail('levels/nodes', 'level %d has %s, expected %s' % (k, sorted(gg.nodemap), sorted(want)), rep)
                    continue
                ins, os_ = boundary(nodes, want, list(g.output), set(g.initials), True)
                with quiet():
                    gp = gg.make_graph_onnx(gg.nodemap.keys(), 'g', gg.input, gg.output)
                gi = {x.name for x in gp.input} - {x.name for x in gp.initializer}
                if gi != ins or not set(x.name for x in gp.output) >= os_:
                    ctx.fail('levels/boundary', 'level %d: inputs %s outputs %s, boundary %s -> %s' % (k, sorted(gi), sorted(x.name for x in gp.output), sorted(ins), sorted(os_)), rep)
                    continue
                compare(ctx, 'levels', gp, m, feeds, full, rep)
    with ctx.section('compute graph'):
        compute_graphs(ctx, rng)


def compute_graphs(ctx, rng):
    """the compute graph drops shape computations only"""
    from . import dyn
    for i in range(ctx.n(150, 2500)):
        if ctx.timeup():
            break
        d = dyn.build(rng)
        if not d:
            continue
        m, desc, rg = d
        rep = {'model': models.text(m)}
        with quiet():
            g = models.load(m)
        nodes, outs, gin = snap(g), list(g.output), list(g.input)
        shp = {}
        # results needed other than through a shape operand
        need, todo = set(), list(outs)
        while todo:
            t = todo.pop()
            for n, (op, ins, os_) in nodes.items():
                if t in os_ and n not in need:
                    need.add(n)
                    todo += [x for k, x in enumerate(ins) if k not in OPERANDS.get((op, len(ins)), ())]
        feeding, todo = set(), [x for op, ins, _ in nodes.values() for k, x in enumerate(ins) if k in OPERANDS.get((op, len(ins)), ())]
        while todo:
            t = todo.pop()
            for n, (op, ins, os_) in nodes.items():
                if t in os_ and n not in feeding:
                    feeding.add(n)
                    todo += [] if op == 'Shape' else ins
        if need & feeding:
            continue            # a result used both as data and as a shape
        ctx.eval(('cg', rep['model']), rep)
        try:
            with quiet():
                cg = g.get_compute_graph()
        except Exception as e:
            ctx.fail('compute/error', '%r' % e, rep)
            continue
        got = snap(cg)
        if any(got.get(n) != nodes[n] for n in need):
            n = next(n for n in nodes if n in need and got.get(n) != nodes[n])
            ctx.fail('compute/kept', 'node %s %s is %s in the compute graph' % (n, nodes[n], got.get(n)), rep)
        if set(got) & feeding:
            ctx.fail('compute/shape', 'shape nodes %s are kept' % sorted(set(got) & feeding), rep)
        if set(cg.output) != set(outs) or list(cg.input) != gin:
            ctx.fail('compute/io', 'inputs %s outputs %s, graph has %s and %s' % (cg.input, cg.output, gin, outs), rep)
        if snap(g) != nodes or list(g.output) != outs:
            ctx.fail('compute/changed', 'the graph itself was changed', rep)
