"""Small graphs whose wiring is symbolic: every input slot, every further graph output and the file order are symbolic choices;
the verifier splits on them, so one contract covers every graph of that size."""
import onnx
from onnx import helper as oh, numpy_helper as nh
import numpy as np


def choose(v, name, items):
    """one of the items; a symbolic choice"""
    if len(items) == 1:
        return items[0]
    return items[int(v.int(name, 0, len(items) - 1))]


class Wiring:
    """nodes: [(name, op, inputs, outputs)] in topological order, inputs, constants and graph outputs"""

    def __init__(self, v, slots, outs=None, consts=1, optional=False, free_outputs=True, ops=None, inputs=1, absent=False):
        n = len(slots)
        outs = outs or [1] * n
        self.gin = ['x'] if inputs == 1 else ['x%d' % k for k in range(inputs)]
        self.ini = ['w%d' % k for k in range(consts)]
        av = self.gin + self.ini
        self.nodes = []
        for k in range(n):
            ins = []
            for j in range(slots[k]):
                ins.append(choose(v, 'in%d_%d' % (k, j), av + ([''] if optional and j == 1 else [])))
            o = ['t%d%s' % (k, 'abc'[j]) for j in range(outs[k])]
            if absent and outs[k] > 1:      # a result of several may be left out
                for j in range(outs[k]):
                    if any(t for t in o[:j] + o[j + 1:]) and choose(v, 'no_' + o[j], [False, True]):
                        o[j] = ''
            self.nodes.append(('n%d' % k, (ops[k] if ops else 'Custom'), ins, o))
            av = av + [t for t in o if t]
        used = {i for _, _, ins, _ in self.nodes for i in ins}
        made = [o for _, _, _, os_ in self.nodes for o in os_ if o]
        self.outs = [t for t in made if t not in used]
        if free_outputs:
            for t in made:
                if t in used and choose(v, 'out_' + t, [False, True]):
                    self.outs.append(t)

    def proto(self, order=None):
        ns = [oh.make_node(op, ins, outs, n) for n, op, ins, outs in self.nodes]
        if order is not None:
            ns = [ns[k] for k in order]
        return oh.make_graph(ns, 'g', [oh.make_tensor_value_info(x, 1, [2, 3]) for x in self.gin], [oh.make_tensor_value_info(o, 1, None) for o in self.outs],
                             [nh.from_array(np.ones((2, 3), np.float32), w) for w in self.ini])

    def text(self):
        return {'nodes': self.nodes, 'outputs': self.outs}


def snap(g):
    return {n: [d.op_type, list(d.input), list(d.output)] for n, d in g.nodemap.items()}


def relations(nodes):
    """producers and consumers implied by {name: [op, inputs, outputs]}"""
    p, c = {}, {}
    for n, (_, ins, outs) in nodes.items():
        for i in ins:
            if i != '':
                c.setdefault(i, set()).add(n)
        for o in outs:
            if o != '':
                p.setdefault(o, set()).add(n)
    return {k: sorted(x) for k, x in p.items()}, {k: sorted(x) for k, x in c.items()}


def recorded(g):
    return tuple({k: sorted(set(x)) for k, x in m.items() if len(x) > 0 and k != ''} for m in (g.producedby, g.consumedby))
