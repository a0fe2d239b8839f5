"""Random whole models for the graph-level checks (on top of c05.rand_graph) and independent recomputation of what they contain."""
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh
from . import opgen as og
from .opgen import R, pick
from .c05 import rand_graph
from .core import quiet, short


def clean(vals):
    return not any(not np.all(np.isfinite(v)) for v in vals.values() if v.dtype.kind == 'f')


def model(rng, lo=2, hi=9, share=True, shuffle=False):
    """(model, feeds, outs, vals) with optional weight sharing and arbitrary file order"""
    for _ in range(50):
        m, feeds, outs, vals = rand_graph(rng, R(rng, lo, hi))
        if outs and feeds and clean(vals) and len(m.graph.node) >= 1:
            break
    g = m.graph
    if share and rng.random() < .7:
        ini = {i.name: nh.to_array(i) for i in g.initializer}
        byshape = {}
        for k, a in ini.items():
            if a.dtype == np.float32:
                byshape.setdefault(a.shape, []).append(k)
        # duplicate consumers: feed one constant to an extra Add on a matching tensor
        for shp, ks in byshape.items():
            prod = set(feeds) | {o for n in g.node for o in n.output}
            for v, a in [(v, a) for v, a in vals.items() if v in prod]:
                if a.dtype == np.float32 and a.shape[len(a.shape) - len(shp):] == shp and rng.random() < .6:
                    nm = 'sh_%s_%s' % (ks[0], v)
                    g.node.append(oh.make_node('Add', [v, ks[0]], [nm], name='n_' + nm))
                    vals[nm] = a + ini[ks[0]]
                    g.output.append(oh.make_tensor_value_info(nm, 1, list(vals[nm].shape)))
                    outs = outs + [nm]
                    break
    if shuffle and len(g.node) > 1:
        order = rng.permutation(len(g.node))
        nodes = [g.node[int(i)] for i in order]
        nodes = [onnx.NodeProto.FromString(n.SerializeToString()) for n in nodes]
        del g.node[:]
        g.node.extend(nodes)
    return m, feeds, outs, vals


def values(m, feeds, want):
    """reference values of all requested tensors of a model"""
    from onnx.reference import ReferenceEvaluator
    mm = onnx.ModelProto.FromString(m.SerializeToString())
    del mm.graph.output[:]
    for w in want:
        mm.graph.output.append(oh.make_tensor_value_info(w, 1, None))
    with quiet():
        return dict(zip(want, ReferenceEvaluator(mm).run(None, feeds)))


def load(m, **cfg):
    from onnx_tool.graph import Graph
    from onnx_tool.utils import ModelConfig
    mm = onnx.ModelProto.FromString(m.SerializeToString())
    with quiet():
        return Graph(mm.graph, ModelConfig(dict(cfg)))


def text(m):
    try:
        return onnx.printer.to_text(m)[:4000]
    except UnicodeDecodeError:
        return str(m)[:4000]


def dag(rng, n=None, optional=True):
    """arbitrary acyclic graph for structural checks (operators are not evaluated): (GraphProto in topological order)"""
    n = n or R(rng, 1, 12)
    gin = ['x%d' % k for k in range(R(rng, 1, 3))]
    ini = ['w%d' % k for k in range(R(rng, 0, 4))]
    av = list(gin) + list(ini)
    nodes = []
    for k in range(n):
        ni = R(rng, 1, 4)
        recent = av[-4:] if rng.random() < .6 else av
        ins = [pick(rng, recent if rng.random() < .7 else av) for _ in range(ni)]
        if optional and ni >= 2 and rng.random() < .15:
            ins[R(rng, 1, ni - 1)] = ''
        if rng.random() < .15:
            ins = [pick(rng, ini)] if ini else ins
        outs = ['t%d_%d' % (k, j) for j in range(R(rng, 1, 3) if rng.random() < .3 else 1)]
        op = pick(rng, ['Relu', 'Add', 'Concat', 'Split', 'Conv', 'Mul', 'Transpose', 'Custom%d' % R(rng, 0, 2), 'Reshape', 'Identity'])
        at = {'alpha': 1.5, 'names': ['a', 'b'], 'ks': [1, 2]} if op.startswith('Custom') else {}
        nodes.append(oh.make_node(op, ins, outs, name='' if rng.random() < .1 else 'n%d' % k, **at))
        if optional and len(outs) > 1 and rng.random() < .3:
            outs[R(rng, 0, len(outs) - 1)] = ''
            nodes[-1].output[:] = outs
        av += [o for o in outs if o]
    used = {i for nd in nodes for i in nd.input}
    ends = [o for nd in nodes for o in nd.output if o and o not in used]
    mids = [o for nd in nodes for o in nd.output if o and o in used and rng.random() < .15]
    outs = ends + mids
    gin = [x for x in gin if x in used] or gin[:1]
    g = oh.make_graph(nodes, 'g', [oh.make_tensor_value_info(x, 1, [2, 3]) for x in gin],
                      [oh.make_tensor_value_info(o, 1, None) for o in outs],
                      [nh.from_array(np.ones((2, 3), np.float32), w) for w in ini])
    return g


def structure(nodes):
    """(producers, consumers) implied by a list of (name, inputs, outputs)"""
    p, c = {}, {}
    for name, ins, outs in nodes:
        for i in ins:
            c.setdefault(i, set()).add(name)
        for o in outs:
            p.setdefault(o, set()).add(name)
    return p, c


def of_graph(g):
    return [(n, list(nd.input), list(nd.output)) for n, nd in g.nodemap.items()]


def relations_ok(g):
    """'' or a description of the first difference between recorded and implied relations"""
    p, c = structure(of_graph(g))
    for what, rec, imp in (('producers', g.producedby, p), ('consumers', g.consumedby, c)):
        rec = {k: set(v) for k, v in rec.items() if v and k != ''}
        imp = {k: v for k, v in imp.items() if k != ''}
        for k in sorted(set(rec) | set(imp)):
            if rec.get(k, set()) != imp.get(k, set()):
                return '%s of %s recorded %s, implied %s' % (what, k, sorted(rec.get(k, [])), sorted(imp.get(k, [])))
    for n, nd in g.nodemap.items():
        if nd.name != n:
            return 'node %s is stored under the name %s' % (nd.name, n)
    return ''


def topo_ok(g, order):
    pos = {n: k for k, n in enumerate(order)}
    p, _ = structure([(n, list(g.nodemap[n].input), list(g.nodemap[n].output)) for n in order])
    for n in order:
        for i in g.nodemap[n].input:
            for q in p.get(i, ()):
                if i != '' and pos[q] >= pos[n]:
                    return 'node %s comes before %s which produces its input %s' % (n, q, i)
    return ''
