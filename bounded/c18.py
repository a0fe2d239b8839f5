"""Constant folding of random models: the folded file computes what the original computes (onnx.reference), keeps the other nodes and no longer computes constants."""
import os
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh
from . import cli, opgen as og
from .opgen import R, pick
from .models import model
from .core import quiet, short


def constant_inputs(rng, m, feeds, share):
    """some graph inputs become stored constants or Constant nodes"""
    g = m.graph
    for k in list(feeds):
        c = rng.random()
        if c >= share:
            continue
        del g.input[[j for j, x in enumerate(g.input) if x.name == k][0]]
        if c < share * .6:
            g.initializer.append(nh.from_array(feeds[k], k))
        else:
            nodes = [onnx.NodeProto.FromString(n.SerializeToString()) for n in g.node]
            del g.node[:]
            a = np.asarray(feeds[k])
            form = {'value': nh.from_array(a, 'v')}
            if a.ndim == 1 and a.dtype == np.float32:
                form = {'value_floats': [float(x) for x in a]}
            elif a.ndim == 1 and a.dtype == np.int64:
                form = {'value_ints': [int(x) for x in a]}
            g.node.append(oh.make_node('Constant', [], [k], 'const_' + k, **form))
            g.node.extend(nodes)
    return {i.name: feeds[i.name] for i in g.input}


def branches(rng, m, feeds, vals):
    """an If whose branches read a computed tensor and a constant"""
    g = m.graph
    made = [o for n in g.node for o in n.output if o in vals and vals[o].dtype == np.float32]
    if not made or 'cond_in' in feeds:
        return feeds
    t = pick(rng, made)
    w = nh.from_array(np.float32(2.5), 'br_w')
    g.initializer.append(w)
    e = oh.make_node('Neg', ['br_w'], ['br_e'], 'br_neg')
    nodes = [onnx.NodeProto.FromString(n.SerializeToString()) for n in g.node]
    del g.node[:]
    g.node.append(e)
    g.node.extend(nodes)
    a = oh.make_graph([oh.make_node('Mul', [t, 'br_e'], ['bt'], 'b1')], 'then', [], [oh.make_tensor_value_info('bt', 1, list(vals[t].shape))])
    b = oh.make_graph([oh.make_node('Add', [t, 'br_w'], ['bf'], 'b2')], 'else', [], [oh.make_tensor_value_info('bf', 1, list(vals[t].shape))])
    g.node.append(oh.make_node('If', ['cond_in'], ['br_y'], 'br_if', then_branch=a, else_branch=b))
    c = bool(rng.random() < .5)
    g.input.append(oh.make_tensor_value_info('cond_in', 9, []))
    feeds = dict(feeds, cond_in=np.asarray(c))
    vals['br_y'] = (vals[t] * np.float32(-2.5)) if c else vals[t] + np.float32(2.5)
    g.output.append(oh.make_tensor_value_info('br_y', 1, list(vals['br_y'].shape)))
    return feeds


def constant_nodes(m):
    const = {i.name for i in m.graph.initializer}
    names, todo = set(), True
    while todo:
        todo = False
        for n in m.graph.node:
            if n.name not in names and n.op_type not in ('DequantizeLinear', 'If') and all(i in const for i in n.input if i):
                names.add(n.name)
                const |= set(n.output)
                todo = True
    return names


def case(ctx, rng):
    import onnx_tool
    from onnx.reference import ReferenceEvaluator
    m, feeds, outs, vals = model(rng, 2, 9, share=rng.random() < .5)
    if not outs or len(m.graph.node) == 0:
        return
    for k, n in enumerate(m.graph.node):
        if not n.name:
            n.name = 'node_%d' % k
    if rng.random() < .4:
        feeds = branches(rng, m, feeds, vals)
        outs = [o.name for o in m.graph.output]
    feeds = constant_inputs(rng, m, feeds, pick(rng, [0., .4, .7, 1.]))
    if 'cond_in' not in {i.name for i in m.graph.input} and any(n.op_type == 'If' for n in m.graph.node) and not feeds:
        return
    ops = [n.op_type for n in m.graph.node]
    rep = {'model': onnx.printer.to_text(m)[:4000], 'feeds': {k: np.asarray(x).tolist() for k, x in feeds.items()}}
    ctx.eval((ops, sorted(feeds), [i.name for i in m.graph.initializer]), ops)
    f = os.path.join(ctx.tmp, 'f.onnx')
    if os.path.exists(f):
        os.remove(f)
    const = constant_nodes(m)
    by = {n.name: n for n in m.graph.node}
    if any(n.op_type == 'If' and all(i not in feeds for i in n.input) for n in m.graph.node):
        return  # an If that may depend on constants only has no value computation
    raw = onnx.ModelProto.FromString(m.SerializeToString())
    try:
        with quiet():
            onnx_tool.model_constant_folding(raw, f)
        k = onnx.load_model(f)
    except Exception as e:
        ctx.fail('fold/error', 'folding %s raised %s' % (ops, short(e)), rep)
        return
    if rng.random() < .2:
        cli.folding(ctx, m, k, rep)
    left = {n.name: n for n in k.graph.node}
    for n in by.values():
        keep = n.name not in const or set(n.output) & set(outs)
        if keep and n.name not in left:
            ctx.fail('fold/removed', 'node %s (%s) of %s is gone' % (n.name, n.op_type, ops), rep)
        elif not keep and n.name in left:
            ctx.fail('fold/left', 'constant node %s (%s) of %s is still there' % (n.name, n.op_type, ops), rep)
        elif keep and (list(n.input), list(n.output), n.op_type) != (list(left[n.name].input), list(left[n.name].output), left[n.name].op_type):
            ctx.fail('fold/changed', 'node %s of %s changed' % (n.name, ops), rep)
    try:
        with quiet():
            onnx.checker.check_model(k)
            r = ReferenceEvaluator(k).run(None, {i.name: feeds[i.name] for i in k.graph.input})
    except Exception as e:
        ctx.fail('fold/invalid', 'the folded %s cannot be evaluated: %s' % (ops, short(e)), rep)
        return
    got = dict(zip([o.name for o in k.graph.output], r))
    for o in outs:
        w = vals[o]
        if o not in got:
            ctx.fail('fold/lost', 'graph output %s of %s is gone' % (o, ops), rep)
            continue
        v = np.asarray(got[o])
        if v.shape != w.shape or v.dtype != w.dtype or not np.allclose(v.astype(float), w.astype(float), rtol=1e-3, atol=1e-3, equal_nan=True):
            ctx.fail('fold/value', 'folded %s: output %s is %s %s, ONNX gives %s %s' % (ops, o, v.dtype, short(v.tolist()), w.dtype, short(w.tolist())), rep)


def run(ctx):
    with ctx.section('fold'):
        for _ in range(ctx.n(150, 3000)):
            if ctx.timeup():
                break
            case(ctx, ctx.rng)
