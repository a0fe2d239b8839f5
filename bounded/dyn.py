"""Random models with declared dimension variables and run-time shape computations, and their true shapes at any assignment."""
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh
from .opgen import R, pick
from .core import quiet

LETTERS = ('N', 'W', 'seq')


class B:
    """builder: every value has a rank and a float type"""

    def __init__(self, rng):
        self.rng = rng
        self.nodes, self.ini, self.k = [], {}, 0
        self.val = {}                  # name -> shape of the probe
        self.shape_nodes = set()

    def const(self, a, stem='c'):
        self.k += 1
        n = '%s%d' % (stem, self.k)
        self.ini[n] = np.asarray(a)
        return n

    def node(self, op, ins, n_out=1, shape=False, **at):
        self.k += 1
        outs = ['t%d_%d' % (self.k, j) for j in range(n_out)]
        name = 'n%d' % self.k
        self.nodes.append(oh.make_node(op, ins, outs, name, **at))
        if shape:
            self.shape_nodes.add(name)
        return outs if n_out > 1 else outs[0]


def build(rng, n=None):
    """(model, input description, ranges) ; values are probed at one assignment to know ranks"""
    nv = R(rng, 1, 2)
    names = list(LETTERS)
    rng.shuffle(names)
    names = names[:nv]
    b = B(rng)
    ins = {}
    for k in range(R(rng, 1, 2)):
        r = R(rng, 2, 4)
        d = [R(rng, 2, 4) for _ in range(r)]
        for v in names:
            if rng.random() < .7:
                d[R(rng, 0, r - 1)] = v
        ins['x%d' % k] = d
    used = {e for d in ins.values() for e in d if isinstance(e, str)}
    if not used:
        ins['x0'][0] = names[0]
        used = {names[0]}
    names = [v for v in names if v in used]
    rg = {}
    for v in names:
        lo = R(rng, 1, 6)
        rg[v] = (lo, lo + pick(rng, [1, 2, 3, 7, 16, 40]))
    # two probes: grow the graph while the shapes at both are known
    assign = [{v: rg[v][0] for v in names}, {v: rg[v][1] for v in names}]
    sh = {t: [[e if isinstance(e, int) else a[e] for e in d] for a in assign] for t, d in ins.items()}
    live = list(ins)
    for _ in range(n or R(rng, 2, 7)):
        t = pick(rng, live[-3:] if rng.random() < .6 else live)
        got = grow(b, t, sh, rng)
        if got:
            live += [g for g in got if g not in live]
    prod = [o for nd in b.nodes for o in nd.output]
    cons = {i for nd in b.nodes for i in nd.input}
    outs = [o for o in prod if o not in cons] or prod[-1:]
    outs += [o for o in prod if o not in outs and o in sh and rng.random() < .1]
    if not b.nodes:
        return None
    xs = [x for x in ins if x in cons]
    if not xs:
        return None
    g = oh.make_graph(b.nodes, 'g', [oh.make_tensor_value_info(x, 1, ins[x]) for x in xs],
                      [oh.make_tensor_value_info(o, 1, None) for o in outs], [nh.from_array(a, n) for n, a in b.ini.items()])
    used = {e for x in xs for e in ins[x] if isinstance(e, str)}
    m = oh.make_model(g, opset_imports=[oh.make_opsetid('', 13)])
    m.ir_version = 8
    if not used:
        return None
    return m, {x: ins[x] for x in xs}, {v: r for v, r in rg.items() if v in used}


def i64(x):
    return np.array(x, np.int64)


def grow(b, t, sh, rng):
    """append an operator on tensor t; sh: shapes at the two probes; returns new float tensors"""
    s = sh[t]
    r = len(s[0])
    fixed = [a == c for a, c in zip(*s)]
    u = R(rng, 0, 18)

    def new(o, f):
        sh[o] = [f(x) for x in s]
        return [o]
    if u == 0:
        return new(b.node(pick(rng, ['Relu', 'Sigmoid', 'Tanh']), [t]), lambda x: list(x))
    if u == 1:
        return new(b.node('Add', [t, t]), lambda x: list(x))
    if u == 2:
        p = [int(i) for i in rng.permutation(r)]
        return new(b.node('Transpose', [t], perm=p), lambda x: [x[i] for i in p])
    if u == 3:
        k, ax = R(rng, 2, 3), R(rng, 0, r - 1)
        return new(b.node('Concat', [t] * k, axis=ax), lambda x: [e * k if i == ax else e for i, e in enumerate(x)])
    if u == 4:
        ax, lo, hi = R(rng, 0, r - 1), R(rng, 0, 1), R(rng, 0, 1)
        if s[0][ax] - lo - hi < 1:
            return None
        end = -hi if hi else 2 ** 40
        return new(b.node('Slice', [t, b.const(i64([lo])), b.const(i64([end])), b.const(i64([ax]))]), lambda x: [e - lo - hi if i == ax else e for i, e in enumerate(x)])
    if u == 5 and r == 3 and fixed[1]:
        k, p, st = R(rng, 1, 3), R(rng, 0, 2), 1
        if s[0][2] + 2 * p - k < 0:
            return None
        f = R(rng, 1, 3)
        w = b.const(np.ones((f, s[0][1], k), np.float32), 'w')
        return new(b.node('Conv', [t, w], pads=[p, p]), lambda x: [x[0], f, x[2] + 2 * p - k + 1])
    if u == 6 and r == 4:
        return new(b.node('MaxPool', [t], kernel_shape=[3, 3], pads=[1, 1, 1, 1]), lambda x: list(x))
    if u == 7 and fixed[-1]:
        k = R(rng, 1, 4)
        return new(b.node('MatMul', [t, b.const(np.ones((s[0][-1], k), np.float32), 'w')]), lambda x: x[:-1] + [k])
    if u == 8:
        ax, kd = R(rng, 0, r - 1), R(rng, 0, 1)
        if r == 1 and not kd:
            return None
        o = b.node('ReduceSum', [t, b.const(i64([ax]))], keepdims=kd)
        return new(o, lambda x: [1 if i == ax else e for i, e in enumerate(x) if kd or i != ax])
    if u == 9:
        ax = R(rng, 0, r - 1)
        reps = [R(rng, 2, 3) if i == ax else 1 for i in range(r)]
        return new(b.node('Tile', [t, b.const(i64(reps))]), lambda x: [e * q for e, q in zip(x, reps)])
    if u in (10, 11, 14) and r >= 2:
        # flatten two neighbouring dimensions (one of them constant) with a shape computed at run time
        i = R(rng, 0, r - 2)
        if not (fixed[i] or fixed[i + 1]):
            return None
        tail = b.node('Shape', [t], shape=True)
        parts = []
        for j in range(r):
            if j == i + 1:
                continue
            if j == i:
                parts.append(b.const(i64([-1])))
            elif fixed[j] and rng.random() < .5:
                parts.append(b.const(i64([s[0][j]])))
            else:
                g = b.node('Gather', [tail, b.const(i64(j))], shape=True, axis=0)
                parts.append(b.node('Unsqueeze', [g, b.const(i64([0]))], shape=True))
        sp = b.node('Concat', parts, shape=True, axis=0)
        return new(b.node('Reshape', [t, sp]), lambda x: x[:i] + [x[i] * x[i + 1]] + x[i + 2:])
    if u == 12:
        pads = [R(rng, 0, 2) for _ in range(2 * r)]
        return new(b.node('Pad', [t, b.const(i64(pads))]), lambda x: [e + pads[i] + pads[r + i] for i, e in enumerate(x)])
    if u == 13:
        ax = R(rng, 0, r)
        if r > 4:
            return None
        return new(b.node('Unsqueeze', [t, b.const(i64([ax]))]), lambda x: x[:ax] + [1] + x[ax:])
    if u == 15:
        sp = b.node('Shape', [t], shape=True)
        o = b.node('ConstantOfShape', [sp], value=nh.from_array(np.array([1.5], np.float32), 'v'))
        sh[o] = [list(x) for x in s]
        return new(b.node('Mul', [t, o]), lambda x: list(x)) + [o]
    if u in (16, 17):
        # join with another tensor that differs along one axis only
        for o in list(rng.permutation(sorted(sh))):
            o = str(o)
            d = [i for i in range(r) if any(x[i] != y[i] for x, y in zip(s, sh[o]))] if len(sh[o][0]) == r else None
            if d is not None and len(d) <= 1:
                ax = d[0] if d else R(rng, 0, r - 1)
                pair = [t, o] if R(rng, 0, 1) else [o, t]
                sh2 = sh[o]
                res = b.node('Concat', pair, axis=ax)
                sh[res] = [[e + y[ax] if i == ax else e for i, e in enumerate(x)] for x, y in zip(s, sh2)]
                return [res]
        return None
    if u == 18:
        # the rest of a constant after the first N (or slope * N) elements
        ax = R(rng, 0, r - 1)
        k = R(rng, 1, 3)
        big = k * max(x[ax] for x in s) + R(rng, 1, 4)
        g = b.node('Gather', [b.node('Shape', [t], shape=True), b.const(i64([ax]))], shape=True, axis=0)
        if k > 1:
            g = b.node('Mul', [g, b.const(i64([k]))], shape=True)
        o = b.node('Slice', [b.const(np.zeros((big,), np.float32), 'w'), g, b.const(i64([2 ** 40])), b.const(i64([0]))])
        return new(o, lambda x: [big - k * x[ax]])
    return None


def true_shapes(m, desc, a):
    """shapes of every float tensor at an assignment, from the ONNX reference evaluator"""
    from onnx.reference import ReferenceEvaluator
    want = [o for nd in m.graph.node for o in nd.output]
    mm = onnx.ModelProto.FromString(m.SerializeToString())
    del mm.graph.output[:]
    mm.graph.output.extend(oh.make_tensor_value_info(w, 1, None) for w in want)
    feeds = {t: np.zeros([e if isinstance(e, int) else a[e] for e in d], np.float32) for t, d in desc.items()}
    with quiet():
        r = dict(zip(want, ReferenceEvaluator(mm).run(None, feeds)))
    r.update(feeds)
    return {t: tuple(x.shape) for t, x in r.items()}
