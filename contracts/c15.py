"""Fusion: conditions on symbolic attributes, pattern search over every wiring of small graphs, batch-norm folding with symbolic weights."""
import contextlib
import itertools
import numpy as np
from onnx import helper as oh, numpy_helper as nh
from pyvc.contract import Entry, Case, FakeNode, RandVars
from spec.sym import And, Or
from .smallgraph import Wiring, choose, snap, relations, recorded
from .c09 import load

CMP = {'<=': lambda a, b: a <= b, '<': lambda a, b: a < b, '>=': lambda a, b: a >= b, '>': lambda a, b: a > b, '==': lambda a, b: a == b}


# ------------------------------------------------------------------ conditions
class Obj:
    """a node with one attribute"""

    def __init__(self, op, **k):
        self.op_type, self.name = op, 'n'
        self.attr = k
        for a, x in k.items():
            setattr(self, a, x)


def condition(ops, kind, n=0, idx=None):
    def fn(v):
        from onnx_tool.fusion import FusionPattern
        want = v.int('num')
        op = choose(v, 'op', ['Conv', 'Relu', 'Add', 'Any'])
        vals = [v.int('a%d' % k) for k in range(n)]
        cmps = ['<=', '<', '>=', '>', '==']
        c1, c2 = choose(v, 'cmp', cmps), choose(v, 'cmp2', cmps) if idx is None else '>='
        attrs = [['kernel_shape', c1, idx, want]] if idx is not None else [['group', c1, want], ['group', c2, v.int('num2')]]
        if kind == 'absent':
            nd = Obj(op)
            ok = False
        elif kind == 'none':
            nd = Obj(op, kernel_shape=None, group=None)
            ok = False
        elif idx is not None:
            nd = Obj(op, kernel_shape=vals)
            ok = idx < n and CMP[c1](vals[idx], want)
        else:
            nd = Obj(op, group=vals[0])
            ok = And(CMP[c1](vals[0], want), CMP[c2](vals[0], attrs[1][2]))
        opok = op in ops if isinstance(ops, list) else ops == 'Any' or ops == op
        desc = {'name': 'a', 'op': ops, 'attrs': attrs, 'inport': [], 'outport': []}

        def run():
            r = FusionPattern([desc]).nodedesc['a'].is_node(nd)
            return r if not isinstance(r, (bool, int, np.bool_)) else bool(r)
        return Case(run, And(opok, ok), False, {'op': op, 'pattern': ops, 'attrs': attrs, 'values': vals})
    return fn


# ------------------------------------------------------------------ pattern search
def D(name, op, inport=(), outport=(), attrs=()):
    return {'name': name, 'op': op, 'attrs': [list(a) for a in attrs], 'inport': [list(x) for x in inport], 'outport': [list(x) for x in outport]}


PATTERNS = {
    'single': [D('a', 'P')],
    'pair': [D('a', 'P', (), [(0, 'b', 0)]), D('b', 'Q', [(0, 'a', 0)])],
    'pair from the end': [D('b', 'Q', [(0, 'a', 0)]), D('a', 'P', (), [(0, 'b', 0)])],
    'any then one of two': [D('a', 'Any', (), [(0, 'b', 0)]), D('b', ['P', 'Q'], [(0, 'a', 0)])],
    'second input': [D('a', 'P', (), [(0, 'b', 1)]), D('b', ['Q'], [(1, 'a', 0)])],
    'any port': [D('a', 'P', (), [(-1, 'b', -1)]), D('b', 'Q', [(-1, 'a', -1)])],
    'link on the consumer only': [D('b', 'Q', [(0, 'a', 0)]), D('a', 'P')],
    'link on the producer only': [D('a', 'P', (), [(0, 'b', 0)]), D('b', 'Q')],
    'chain': [D('a', 'P', (), [(0, 'b', 0)]), D('b', 'Q', [(0, 'a', 0)], [(0, 'c', 0)]), D('c', 'P', [(0, 'b', 0)])],
    'chain from the middle': [D('b', 'Q', [(0, 'a', 0)], [(0, 'c', 0)]), D('a', 'P', (), [(0, 'b', 0)]), D('c', 'P', [(0, 'b', 0)])],
    'fan out': [D('a', 'P', (), [(0, 'b', 0), (0, 'c', 0)]), D('b', 'Q', [(0, 'a', 0)]), D('c', 'Q', [(0, 'a', 0)])],
    'fan in': [D('c', 'Q', [(0, 'a', 0), (1, 'b', 0)]), D('a', 'P', (), [(0, 'c', 0)]), D('b', 'P', (), [(0, 'c', 1)])],
    'residual': [D('a', 'P', (), [(0, 'b', 1)]), D('b', 'Q', [(1, 'a', 0)], [(0, 'c', 0)]), D('c', ['P', 'Q'], [(0, 'b', 0)])],
    'triangle': [D('a', 'P', (), [(0, 'b', 0), (0, 'c', 0)]), D('b', 'Q', [(0, 'a', 0)], [(0, 'c', 1)]), D('c', 'Q', [(0, 'a', 0), (1, 'b', 0)])],
    'diamond': [D('a', 'P', (), [(0, 'b', 0), (0, 'c', 0)]), D('b', 'Q', [(0, 'a', 0)], [(0, 'd', 0)]), D('c', 'Q', [(0, 'a', 0)], [(0, 'd', 1)]),
                D('d', 'Q', [(0, 'b', 0), (1, 'c', 0)])],
}


def linked(nodes, c, p, po, n, ci, inplace):
    outs, ins = nodes[p][2], nodes[n][1]
    outs = outs if po == -1 else outs[po:po + 1]
    ins = ins if ci == -1 else ins[ci:ci + 1]
    return any(t and t in ins and (not inplace or c[t] == 1) for t in outs)


def satisfied(descs, names, nodes, c, inplace):
    """the group is an instance of the description"""
    at = {d['name']: n for d, n in zip(descs, names)}
    for d in descs:
        n = at[d['name']]
        op = nodes[n][0]
        if not (op in d['op'] if isinstance(d['op'], list) else d['op'] in ('Any', op)):
            return False
        if not all(linked(nodes, c, at[k], o, n, i, inplace) for i, k, o in d['inport']):
            return False
        if not all(linked(nodes, c, n, o, at[k], i, inplace) for o, k, i in d['outport']):
            return False
    return True


def judge(descs, got, nodes, inplace):
    """what is wrong with the reported matches: instances, disjoint, and none left over"""
    c = {k: len(x) for k, x in relations(nodes)[1].items()}     # reading nodes
    for m in got:
        if len(m) != len(descs) or len(set(m)) != len(m) or any(n not in nodes for n in m):
            return 'no group of %d distinct nodes: %s' % (len(descs), m)
        if not satisfied(descs, m, nodes, c, inplace):
            return 'no instance: %s' % m
    used = [n for m in got for n in m]
    if len(set(used)) != len(used):
        return 'overlapping: %s' % got
    c = {k: sum(x[1].count(k) for x in nodes.values()) for k in c}      # reads
    for m in itertools.permutations([n for n in nodes if n not in used], len(descs)):
        if satisfied(descs, m, nodes, c, inplace):
            return 'missed: %s' % (m,)
    return ''


def search(size, ops, descs, inplace):
    def fn(v):
        from onnx_tool.fusion import FusionPattern
        w = Wiring(v, ops=ops, **size)
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in w.nodes}

        def run():
            g = load(w)
            pat = FusionPattern([dict(d) for d in descs], inplace)
            got = pat.search_pattern(g)
            return [judge(descs, got, nodes, inplace), pat.search_pattern(load(w)) == got, snap(g) == nodes]
        return Case(run, ['', True, True], False, dict(w.text(), pattern=descs))
    return fn


def serial(size, ops, chain):
    def fn(v):
        from onnx_tool.fusion import createSerialPattern
        w = Wiring(v, ops=ops, **size)
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in w.nodes}
        descs = [D(str(k), op, [(-1, str(k - 1), -1)] if k else (), [(-1, str(k + 1), -1)] if k + 1 < len(chain) else ()) for k, op in enumerate(chain)]

        def run():
            got = createSerialPattern(list(chain)).search_pattern(load(w))
            return judge(descs, got, nodes, False)
        return Case(run, '', False, dict(w.text(), chain=chain))
    return fn


def describe(size, names):
    """the description taken from a group lists exactly the links inside it, and the group is found with it"""
    def fn(v):
        from onnx_tool.fusion import create_descs_from_nodenames, FusionPattern
        w = Wiring(v, **size)
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in w.nodes}
        links = [(p, k, n, j) for n in names for j, t in enumerate(nodes[n][1]) for p in names for k, o in enumerate(nodes[p][2]) if o == t and t]
        exp = [{'name': n, 'op': nodes[n][0], 'attrs': [], 'inport': sorted([j, p, k] for p, k, m, j in links if m == n),
                'outport': sorted([k, m, j] for p, k, m, j in links if p == n)} for n in names]
        whole, todo = {names[0]}, [names[0]]
        while todo:
            x = todo.pop()
            for p, _, m, _ in links:
                for a, b in ((p, m), (m, p)):
                    if a == x and b not in whole:
                        whole.add(b)
                        todo.append(b)

        def run():
            g = load(w)
            ds = create_descs_from_nodenames(g, list(names))
            r = [dict(d, inport=sorted(list(x) for x in d['inport']), outport=sorted(list(x) for x in d['outport'])) for d in ds]
            found = True
            if len(whole) == len(names):
                got = FusionPattern(ds).search_pattern(g)
                found = bool(judge(exp, got, nodes, False) == '' and len(got) > 0)
            return [r, found]
        return Case(run, [exp, True], False, dict(w.text(), group=names))
    return fn


# ------------------------------------------------------------------ batch normalisation
TOPO = {        # (op, inputs, outputs), graph outputs, normalisations folded
    'conv bn': ([('Conv', ['x', 'w'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y'])], ['y'], [1]),
    'conv with bias': ([('Conv', ['x', 'w', 'k'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y'])], ['y'], [1]),
    'followed': ([('Conv', ['x', 'w'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y']), ('Relu', ['y'], ['z'])], ['z', 'y'], [1]),
    'followed twice': ([('Conv', ['x', 'w', 'k'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y']), ('Relu', ['y'], ['z']), ('Add', ['z', 'y'], ['u'])], ['u'], [1]),
    'preceded': ([('Relu', ['x'], ['r']), ('Conv', ['r', 'w'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y'])], ['y'], [2]),
    'convolution read elsewhere': ([('Conv', ['x', 'w'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y']), ('Relu', ['c'], ['z'])], ['y', 'z'], []),
    'convolution returned': ([('Conv', ['x', 'w'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y'])], ['y', 'c'], []),
    'shared weight': ([('Conv', ['x', 'w'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y']), ('Conv', ['x', 'w'], ['z'])], ['y', 'z'], []),
    'shared weight, both normalised': ([('Conv', ['x', 'w'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y']), ('Conv', ['x', 'w'], ['d']), ('BN', ['d', 'b', 'g', 'm', 'v'], ['z'])],
                                       ['y', 'z'], []),
    'shared bias': ([('Conv', ['x', 'w', 'k'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y']), ('Conv', ['x', 'w2', 'k'], ['z'])], ['y', 'z'], [1]),
    'bias is a statistic': ([('Conv', ['x', 'w', 'm'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y'])], ['y'], [1]),
    'shared statistics': ([('Conv', ['x', 'w'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y']), ('Conv', ['x', 'w2'], ['d']), ('BN', ['d', 'g', 'b', 'm', 'v'], ['z'])],
                          ['y', 'z'], [1, 3]),
    'scale is the offset': ([('Conv', ['x', 'w'], ['c']), ('BN', ['c', 'g', 'g', 'm', 'v'], ['y'])], ['y'], [1]),
    'statistics from outside': ([('Conv', ['x', 'w'], ['c']), ('BN', ['c', 'x2', 'b', 'm', 'v'], ['y'])], ['y'], []),
    'weight from outside': ([('Conv', ['x', 'x2'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y'])], ['y'], []),
    'normalisation first': ([('BN', ['x', 'g', 'b', 'm', 'v'], ['c']), ('Conv', ['c', 'w'], ['y'])], ['y'], []),
    'training': ([('Conv', ['x', 'w'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y', 'y2', 'y3'])], ['y'], []),
    'bias computed': ([('Relu', ['x2'], ['r']), ('Conv', ['x', 'w', 'r'], ['c']), ('BN', ['c', 'g', 'b', 'm', 'v'], ['y'])], ['y'], []),
}
BN = {'BN': 'BatchNormalization'}


def bn_graph(topo, wsh, dtype):
    ns, outs, _ = TOPO[topo]
    nodes = []
    used = [i for _, ins, _ in ns for i in ins]
    et = oh.np_dtype_to_tensor_dtype(np.dtype(dtype))
    for k, (op, ins, os_) in enumerate(ns):
        at = {'kernel_shape': list(wsh[2:]), 'pads': [0, 0, 0, 0]} if op == 'Conv' else {'training_mode': 1} if len(os_) == 3 else {}
        nodes.append(oh.make_node(BN.get(op, op), ins, os_, 'n%d' % k, **at))
    shapes = {n: list(wsh) if n in ('w', 'w2') else [wsh[0]] for n in ('w', 'w2', 'g', 'b', 'm', 'v', 'k') if n in used}
    gp = oh.make_graph(nodes, 'g', [oh.make_tensor_value_info(x, et, None) for x in ('x', 'x2') if x in used], [oh.make_tensor_value_info(o, et, None) for o in outs],
                       [nh.from_array(np.ones(s, dtype), n) for n, s in shapes.items()])
    return gp, shapes


def near(v, a, b, size=1.):
    if v.native:
        a, b, size = float(a), float(b), abs(float(size))
        return abs(a - b) <= 2e-3 * max(abs(a), abs(b), size, 1e-3)
    return a == b


def fold(topo, wsh, dtype=np.float32):
    def fn(v):
        import onnx_tool.fusion as F
        from onnx_tool.graph import Graph
        from onnx_tool.utils import ModelConfig
        from .c12 import no_protos
        gp, shapes = bn_graph(topo, wsh, dtype)
        g = Graph(gp, ModelConfig({}))
        eps = v.real('eps')
        val = {}
        for n, s in shapes.items():
            a = np.empty(s, object)
            for i in np.ndindex(*s):
                a[i] = v.real('%s_%s' % (n, '_'.join(map(str, i))))
            val[n] = a
        if v.native:
            eps = abs(eps)
            val['v'] = np.abs(val['v'])
            v.require(all(x + eps > .05 for x in val['v']))
        for x in val['v']:
            v.require(x + eps > 0)
        for nd in g.nodemap.values():
            if nd.op_type == 'BatchNormalization':
                nd.epsilon = eps
                nd.attr['epsilon'] = eps
        keep = {}
        for n, a in val.items():
            t = g.tensormap[n]
            if v.native:
                t.numpy = np.array(a.astype(np.float64), dtype)
            else:
                from pyvc.env import tagged
                t.numpy = tagged(a.copy(), dtype)
            keep[n] = t.numpy.copy()
        nodes = {n: [d.op_type, list(d.input), list(d.output)] for n, d in g.nodemap.items()}
        folded = TOPO[topo][2]
        exp, todo = {n: [x[0], list(x[1]), list(x[2])] for n, x in nodes.items()}, []
        for k in folded:
            bn = nodes['n%d' % k]
            c = next(n for n in nodes if nodes[n][2] == [bn[1][0]])
            del exp['n%d' % k]
            exp[c][2] = list(bn[2])
            exp[c][1] = exp[c][1][:2]
            todo.append((c, nodes[c], bn))
        ins, outs = list(g.input), list(g.output)

        def root(x):
            import math
            if v.native:
                return math.sqrt(float(x))
            from pyvc.values import sqrt
            return sqrt(x)

        def run():
            with contextlib.nullcontext() if v.native else no_protos(), contextlib.nullcontext() if v.native else soft_arrays():
                F.ConvBNFusion(g)
            r = {'outputs': list(g.output), 'inputs': list(g.input)}
            now = snap(g)
            conv = [c for c, _, _ in todo]
            r['nodes'] = {n: [x[0], x[1][:2] if n in conv else x[1], x[2]] for n, x in now.items()}
            r['relations'] = list(recorded(g)) == list(relations(now))
            r['values'] = []
            touched = {nodes[c][1][1] for c in conv}
            for c, cn, bn in todo:
                W, B = (g.tensormap[i].numpy for i in now[c][1][1:3])
                w0, (sc, of, me, va) = keep[cn[1][1]], (keep[i] for i in bn[1][1:5])
                k0 = keep[cn[1][2]] if len(cn[1]) > 2 else None
                for o in range(wsh[0]):
                    S = root(va[o] + eps)
                    for i in np.ndindex(*wsh[1:]):
                        r['values'].append(near(v, W[(o,) + i] * S, sc[o] * w0[(o,) + i]))
                    k = k0[o] if k0 is not None else 0.
                    r['values'].append(near(v, (B[o] - of[o]) * S, sc[o] * (k - me[o]), (abs(float(k)) + abs(float(me[o])) + abs(float(B[o])) + abs(float(of[o])) + 1) * (abs(float(sc[o])) + S) if v.native else 1))
                r['values'].append(tuple(W.shape) == tuple(wsh) and tuple(B.shape) == (wsh[0],) and W.dtype == dtype and B.dtype == dtype
                                   and all(i in g.initials for i in now[c][1][1:3]) and len(now[c][1]) == 3)
            r['others'] = all(x in g.tensormap and np.shape(g.tensormap[x].numpy) == np.shape(keep[x]) and same(v, g.tensormap[x].numpy, keep[x])
                              for x in keep if x not in touched and any(x in ins_ for _, ins_, _ in now.values()))
            return r
        n = sum(int(np.prod(wsh)) + wsh[0] + 1 for _ in todo)
        return Case(run, {'outputs': outs, 'inputs': ins, 'nodes': exp, 'relations': True, 'values': [True] * n, 'others': True}, False,
                    {'topology': topo, 'weight shape': list(wsh), 'values': dict(v.vals) if v.native else None})
    return fn


def same(v, a, b):
    return all(x is y or (v.native and x == y) or (not v.native and hasattr(x, 't') and hasattr(y, 't') and x.t.eq(y.t)) for x, y in zip(np.reshape(a, -1), np.reshape(b, -1)))


class soft_arrays:
    def __enter__(self):
        from pyvc import env
        self.env = env
        env.SOFT[0] = True

    def __exit__(self, *a):
        self.env.SOFT[0] = False


def fused(size, ops, descs, inplace):
    """fusing the matches found keeps their boundaries and everything else"""
    def fn(v):
        from onnx_tool.fusion import FusionPattern
        from .c09 import boundary, convex, observe, specified, used_inputs
        w = Wiring(v, ops=ops, **size)
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in w.nodes}
        g0 = load(w)
        got = FusionPattern([dict(d) for d in descs], True).search_pattern(g0)
        exp = dict(nodes)
        for m in got:
            v.require(convex(exp, m))
            ins, outs = boundary(exp, m, w.outs)
            exp = {n: x for n, x in exp.items() if n not in m}
            exp[m[0]] = [nodes[m[0]][0], ins, outs]

        def run():
            g = load(w)
            for m in FusionPattern([dict(d) for d in descs], True).search_pattern(g):
                g.fuse_postop_node_names(list(m), inplace)
                d = g.nodemap[m[0]]
                d.input, d.output = sorted(d.input), sorted(d.output)
            return observe(g)
        return Case(run, specified(exp, used_inputs(w), w.outs), False, dict(w.text(), matches=got))
    return fn


BUILTIN = {        # the graphs the patterns that come with the tool are meant for: (op, inputs, output)
    'ConvBN': [('Conv', ['x', 'w'], 'a'), ('BatchNormalization', ['a', 'w0', 'w1', 'w2', 'w3'], 'b')],
    'Fused_Element': [('Gemm', ['x', 'w'], 'a'), ('Relu', ['a'], 'b')],
    'Conv_Res': [('Conv', ['x', 'w'], 'a'), ('Add', ['x', 'a'], 'b'), ('Relu', ['b'], 'c')],
    'MHAint8_Pattern': [('QLinearMatMul', ['x', 'w0', 'w1', 'x2', 'w0', 'w1', 'w0', 'w1'], 'a'), ('DequantizeLinear', ['a', 'w0', 'w1'], 'b'), ('Div', ['b', 'w2'], 'c'),
                        ('Add', ['c', 'x3'], 'd'), ('Softmax', ['d'], 'e'), ('QuantizeLinear', ['e', 'w0', 'w1'], 'f'), ('QLinearMatMul', ['f', 'w0', 'w1', 'x4', 'w0', 'w1', 'w0', 'w1'], 'h')],
    'layernorm_pattern': [('ReduceMean', ['x'], 'a'), ('Sub', ['x', 'a'], 'b'), ('Pow', ['b', 'w0'], 'c'), ('ReduceMean', ['c'], 'd'), ('Add', ['d', 'w1'], 'e'), ('Sqrt', ['e'], 'f'),
                          ('Div', ['b', 'f'], 'h')],
}


def builtin(name):
    """the pattern finds its graph, whatever else reads the tensors and wherever it sits"""
    def fn(v):
        import onnx_tool.fusion as F
        from onnx_tool.graph import Graph
        from onnx_tool.utils import ModelConfig
        ns = BUILTIN[name]
        made = [o for _, _, o in ns]
        nodes = [oh.make_node(op, ins, [o], 'n%d' % k, **({'kernel_shape': [choose(v, 'k0', [1, 3, 7]), choose(v, 'k1', [1, 3, 7])]} if op == 'Conv' else {})) for k, (op, ins, o) in enumerate(ns)]
        side = choose(v, 'side', [None] + made)
        if side:
            nodes.append(oh.make_node('Custom', [side], ['s'], 'side'))
        if choose(v, 'head', [False, True]):
            nodes.insert(0, oh.make_node('Custom', ['x0'], ['x'], 'head'))
        ins = sorted({i for n in nodes for i in n.input if i.startswith('x')} - {o for n in nodes for o in n.output})
        gp = oh.make_graph(nodes, 'g', [oh.make_tensor_value_info(i, 1, None) for i in ins], [oh.make_tensor_value_info(made[-1], 1, None)] + ([oh.make_tensor_value_info('s', 1, None)] if side else []),
                           [nh.from_array(np.ones((2,), np.float32), w) for w in sorted({i for n in nodes for i in n.input if i.startswith('w')})])

        def run():
            got = F.FusionPattern(getattr(F, name)).search_pattern(Graph(gp, ModelConfig({})))
            return [sorted(m) for m in got]
        exp = [['n%d' % k for k in range(len(ns))]]
        return Case(run, exp, False, {'pattern': name, 'side': side})
    return fn


SIZES = {'2 nodes of 2 outputs': dict(slots=[2, 2], outs=[2, 2], free_outputs=False, consts=0), '3 nodes': dict(slots=[1, 2, 2], free_outputs=False, consts=0),
         '4 nodes': dict(slots=[1, 1, 2, 2], free_outputs=False, consts=0)}
MORE = {'3 nodes of 2 outputs': dict(slots=[1, 2, 2], outs=[2, 2, 1], free_outputs=False, consts=0), '4 nodes, wide': dict(slots=[1, 2, 2, 2], free_outputs=False, consts=0)}
OPS4 = [('P', 'Q', 'Q', 'Q'), ('P', 'Q', 'P', 'Q'), ('P', 'P', 'Q', 'Q'), ('Q', 'P', 'Q', 'P'), ('P', 'Q', 'Q', 'P')]


def entries(tier):
    B = 'every wiring of graphs of that size'
    for ops in ('Any', 'Conv', ['Relu', 'Add']):
        o = ops if isinstance(ops, str) else ' or '.join(ops)
        for n in range(1, 4):
            for idx in range(0, n + 1):
                yield Entry('condition/%s/element %d of %d' % (o, idx, n), ['C15'], condition(ops, 'ints', n, idx))
        yield Entry('condition/%s/number' % o, ['C15'], condition(ops, 'int', 1))
        for k in ('absent', 'none'):
            yield Entry('condition/%s/%s' % (o, k), ['C15'], condition(ops, k, 1, 0))
            yield Entry('condition/%s/%s number' % (o, k), ['C15'], condition(ops, k, 1))
    for s, size in dict(SIZES, **(MORE if tier != 'quick' else {})).items():
        n = len(size['slots'])
        for pn, descs in PATTERNS.items():
            if len(descs) > n or (n == 4 and len(descs) < 3):
                continue
            for ops in itertools.product('PQ', repeat=n) if n < 4 or tier != 'quick' else OPS4:
                if len({x for d in descs for x in (d['op'] if isinstance(d['op'], list) else [d['op']])} & {'P', 'Q'} - set(ops)):
                    continue
                for ip in (False, True):
                    yield Entry('search/%s/%s/%s%s' % (s, pn, ''.join(ops), ', in place' if ip else ''), ['C15'], search(size, ops, descs, ip), B)
                    if pn in ('pair', 'any port', 'chain', 'residual') and n < 4 and not ip:
                        yield Entry('fuse matches/%s/%s/%s' % (s, pn, ''.join(ops)), ['C15'], fused(dict(size, free_outputs=True), ops, descs, True), B)
        for k in range(1, min(n, 4) + 1):
            for chain in itertools.product('PQ', repeat=k):
                for ops in itertools.product('PQ', repeat=n) if n < 4 else OPS4:
                    if set(chain) <= set(ops) and (n < 4 or k > 2):
                        yield Entry('serial/%s/%s/%s' % (s, ''.join(chain), ''.join(ops)), ['C15'], serial(size, ops, chain), B)
        for k in range(1, n + 1):
            for sub in itertools.combinations(range(n), k):
                for rev in (False, True):
                    names = ['n%d' % i for i in (sub[::-1] if rev else sub)]
                    if k > 1 or not rev:
                        yield Entry('describe/%s/%s' % (s, '+'.join(names)), ['C15'], describe(dict(size, optional=True, consts=1), names), B)
    left = dict(slots=[1, 2, 1], outs=[2, 2, 1], consts=0, optional=True, absent=True, free_outputs=False)
    for sub in itertools.permutations(['n0', 'n1', 'n2']):
        yield Entry('describe/left out/%s' % '+'.join(sub), ['C15'], describe(left, list(sub)), B)
    for pn in ('pair', 'any port', 'chain'):
        for ops in (['P', 'Q', 'Q'], ['P', 'P', 'Q']):
            for ip in (False, True):
                yield Entry('search/left out/%s/%s%s' % (pn, ''.join(ops), ', in place' if ip else ''), ['C15'], search(left, ops, PATTERNS[pn], ip), B)
    for name in BUILTIN:
        yield Entry('built in/%s' % name, ['C15'], builtin(name), 'the graph the pattern describes, with further readers')
    for topo in TOPO:
        for wsh in [(1, 1, 1, 1), (2, 2, 1, 2), (1, 1, 2, 2), (2, 1, 2, 1)]:
            yield Entry('fold/%s/%s' % (topo, 'x'.join(map(str, wsh))), ['C15'], fold(topo, wsh), 'weights of that shape, all element values')
    for dt in (np.float64,):
        for topo in ('conv bn', 'conv with bias'):
            yield Entry('fold/%s/%s' % (topo, np.dtype(dt).name), ['C15'], fold(topo, (2, 1, 1, 1), dt), 'weights of that shape, all element values')
