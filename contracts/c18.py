"""Constant folding on every wiring and file order of small graphs: the nodes that stay, the constants that take the place of the others,
the graph's inputs, outputs and relations, and the file saved afterwards."""
import contextlib
import itertools
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh
from pyvc.contract import Entry, Case
from .smallgraph import Wiring, snap, relations, recorded, choose

ELEM = {'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b, 'Add': lambda a, b: a + b, 'Max': np.maximum, 'Neg': lambda a: -a, 'Abs': np.abs, 'Identity': lambda a: a}


def weights(w):
    """a value of its own for every constant"""
    return {n: (np.sqrt(np.arange(2, 8) * 2 + 13 * k + 1).reshape(2, 3) * (-1) ** k).astype(np.float32) for k, n in enumerate(w.ini)}


def folded(w):
    """(nodes that stay, constants they read, value of every tensor that depends on constants only, whether folding must raise)"""
    val = weights(w)
    stay, rejected = {}, False
    for n, op, i, o in w.nodes:
        const = op != 'DequantizeLinear' and all(x in val for x in i if x)
        if const:
            if op == 'Custom':
                rejected = True
                val.update((x, None) for x in o)
            elif op == 'Split':
                a = val[i[0]]
                if a is not None and a.shape[0] % 2:
                    return None
                val.update(zip(o, [None, None] if a is None else np.split(a, 2)))
            else:
                args = [val[x] for x in i]
                val[o[0]] = None if any(a is None for a in args) else ELEM[op](*args)
        if not const or set(o) & set(w.outs):
            stay[n] = [op, list(i), list(o)]
    made = {x for _, _, o in stay.values() for x in o}
    read = {x for _, i, _ in stay.values() for x in i if x}
    return stay, sorted(x for x in read if x in val and x not in made), val, rejected


def file_of(w, order, attrs=True):
    m = w.proto(order)
    del m.initializer[:]
    m.initializer.extend(nh.from_array(a, k) for k, a in weights(w).items())
    for x in m.output:
        x.type.tensor_type.elem_type = 1
    for d in m.node:
        if d.op_type in ('Custom', 'DequantizeLinear'):
            d.attribute.append(oh.make_attribute('axis', 0))
            if d.op_type == 'Custom':
                d.domain = 'custom'
        elif d.op_type == 'Split':
            d.attribute.append(oh.make_attribute('axis', 0))
    return m


def exact(a, b):
    return a is not None and a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(a, b))


def fold(size, shuffle):
    """loading with folding"""
    def fn(v):
        w = Wiring(v, **size)
        n = len(w.nodes)
        order = list(choose(v, 'order', list(itertools.permutations(range(n))))) if shuffle else list(range(n))
        f = folded(w)
        v.require(f is not None)
        stay, const, val, rejected = f
        p, c = relations(stay)
        read = {x for _, i, _ in stay.values() for x in i}
        made = {x for _, _, o in stay.values() for x in o}
        exp = {'nodes': stay, 'attributes': True, 'constants': const, 'values': True, 'inputs': sorted(x for x in w.gin if x in read), 'relations': [p, c],
               'outputs': sorted(w.outs), 'computed': sorted(made | {x for x in w.gin if x in read}), 'typed': True}
        if not shuffle:
            exp['predecessors'] = {m: sorted({q for i in x[1] if i for q in p.get(i, [])}) for m, x in stay.items()}
            exp['successors'] = {m: sorted({q for o in x[2] for q in c.get(o, [])}) for m, x in stay.items()}

        def run():
            from onnx_tool.graph import Graph
            from onnx_tool.tensor import STATIC_TENSOR
            from onnx_tool.utils import ModelConfig
            m = file_of(w, order)
            g = Graph(m, ModelConfig({'constant_folding': True}))
            raw = {d.name: d for d in m.node}
            r = {'nodes': snap(g), 'attributes': all(sorted(a.name for a in d.make_nodeproto().attribute) == sorted(a.name for a in raw[k].attribute) for k, d in g.nodemap.items()),
                 'constants': sorted(x for x in g.initials if x), 'values': all(exact(g.tensormap[x].get_numpy(), val[x]) for x in const), 'inputs': sorted(x for x in g.input if x),
                 'relations': list(recorded(g)), 'outputs': sorted(set(g.output)), 'computed': sorted(set(x for x in g.dynamics if x)),
                 'typed': all((g.tensormap[x].type == STATIC_TENSOR) == (x in val) for x in made | (read - {''}))}
            if not shuffle:
                r['predecessors'] = {k: sorted({x.name for x in d.prevnodes}) for k, d in g.nodemap.items()}
                r['successors'] = {k: sorted({x.name for x in d.nextnodes}) for k, d in g.nodemap.items()}
            return r
        return Case(run, exp, rejected, dict(w.text(), order=order))
    return fn


def saved(size):
    """the folded model saved to a file"""
    def fn(v):
        w = Wiring(v, **size)
        order = list(choose(v, 'order', list(itertools.permutations(range(len(w.nodes))))))
        f = folded(w)
        v.require(f is not None)
        stay, const, val, rejected = f
        v.require(not rejected)
        v.require(len(stay) > 0)
        read = {x for _, i, _ in stay.values() for x in i}
        exp = {'nodes': stay, 'order': True, 'constants': const, 'values': True, 'inputs': sorted(x for x in w.gin if x in read), 'outputs': sorted(w.outs)}

        def run():
            import os, tempfile
            import onnx_tool
            from .c08 import in_order
            raw = oh.make_model(file_of(w, order), opset_imports=[oh.make_opsetid('', 13), oh.make_opsetid('custom', 1)], ir_version=8)
            with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(None):
                p = os.path.join(d, 'm.onnx')
                onnx_tool.model_constant_folding(raw, p)
                g = onnx.load_model(p).graph
            got = {x.name: nh.to_array(x) for x in g.initializer}
            nodes = {k.name: [k.op_type, list(k.input), list(k.output)] for k in g.node}
            return {'nodes': nodes, 'order': len(nodes) == len(g.node) and in_order(nodes, [k.name for k in g.node]), 'constants': sorted(got),
                    'values': all(x in got and exact(got[x], val[x]) for x in const), 'inputs': sorted(x.name for x in g.input), 'outputs': sorted(x.name for x in g.output)}
        return Case(run, exp, False, dict(w.text(), order=order))
    return fn


def nested(slots):
    """a node with a nested graph stays when the nested graph reads a computed tensor; constants only the nested graph reads are kept"""
    def fn(v):
        w = Wiring(v, slots=slots, ops=['Neg' if s == 1 else 'Sub' for s in slots[:-1]] + ['If'], consts=2, free_outputs=False)
        f = folded(Wiring2(w, len(slots) - 1))
        t = choose(v, 'read', ['x', 'w0', 'w1'] + [o for _, _, _, os in w.nodes[:-1] for o in os])
        name = w.nodes[-1][0]
        stay, const, val, _ = f
        ins, made_here = list(w.nodes[-1][2]), list(w.nodes[-1][3])
        v.require(not (t in val and all(x in val for x in ins)))
        outs = sorted(set(w.outs) - {t})
        stay = {k: x for k, x in stay.items() if k != name and (not all(i in val for i in x[1]) or set(x[2]) & set(outs))}
        stay[name] = ['If', ins, made_here]
        made = {x for k, (_, _, o) in stay.items() for x in o}
        read = {x for _, i, _ in stay.values() for x in i} | {t}
        inner = oh.make_graph([oh.make_node('Identity', [t], ['inner'], 'i')], 'body', [], [oh.make_tensor_value_info('inner', 1, None)])
        exp = {'nodes': stay, 'constants': sorted(x for x in read if x in val and x not in made), 'values': True, 'inputs': sorted({'x'} & read), 'outputs': outs,
               'saved': sorted(x for x in read if x in val and x not in made)}

        def run():
            from onnx_tool.graph import Graph
            from onnx_tool.utils import ModelConfig
            m = file_of(w, None)
            del m.output[:]
            m.output.extend(oh.make_tensor_value_info(o, 1, None) for o in outs)
            for k in m.node:
                if k.name == name:
                    k.attribute.append(oh.make_attribute('then_branch', inner))
                    k.attribute.append(oh.make_attribute('else_branch', inner))
            g = Graph(m, ModelConfig({'constant_folding': True}))
            s = g.make_graph_onnx(list(g.nodemap), 'g', g.input, g.output)
            return {'nodes': snap(g), 'constants': sorted(g.initials), 'values': all(exact(g.tensormap[x].get_numpy(), val[x]) for x in exp['constants']), 'inputs': sorted(g.input),
                    'outputs': sorted(set(g.output)), 'saved': sorted(i.name for i in s.initializer)}
        return Case(run, exp, False, dict(w.text(), nested=t))
    return fn


class Wiring2:
    """the wiring with one node never constant"""

    def __init__(self, w, k):
        self.nodes = [(n, 'DequantizeLinear' if j == k else op, i, o) for j, (n, op, i, o) in enumerate(w.nodes)]
        self.ini, self.outs, self.gin = w.ini, w.outs, w.gin


FORMS = {'value': lambda: nh.from_array(np.asarray([2.5, -1, 4], np.float32), 'c'), 'value_float': lambda: 2.5, 'value_floats': lambda: [2.5, -1., 4.],
         'value_int': lambda: 7, 'value_ints': lambda: [7, -3, 2], 'value_string': lambda: 'ab', 'value_strings': lambda: ['ab', 'c', '']}
WANT = {'value': np.asarray([2.5, -1, 4], np.float32), 'value_float': np.float32(2.5), 'value_floats': np.asarray([2.5, -1, 4], np.float32), 'value_int': np.int64(7),
        'value_ints': np.asarray([7, -3, 2], np.int64), 'value_string': np.asarray(b'ab'), 'value_strings': np.asarray([b'ab', b'c', b''])}


def constant(form, folding):
    """a Constant node, however its value is written, folded or inferred"""
    def fn(v):
        two = choose(v, 'read twice', [False, True])

        def run():
            from onnx_tool.graph import Graph
            from onnx_tool.utils import ModelConfig
            nodes = [oh.make_node('Constant', [], ['k'], 'n0', **{form: FORMS[form]()}), oh.make_node('Custom', ['x', 'k'], ['y'], 'n1')]
            if two:
                nodes.append(oh.make_node('Custom', ['y', 'k'], ['z'], 'n2'))
            m = oh.make_graph(nodes, 'g', [oh.make_tensor_value_info('x', 1, [3])], [oh.make_tensor_value_info('z' if two else 'y', 1, None)])
            g = Graph(m, ModelConfig({'constant_folding': folding}))
            t = g.tensormap['k']
            if not folding:
                g.nodemap['n0'].shape_infer([], [t])
                shape = list(t.get_shape())
                g.nodemap['n0'].value_infer([], [t])
                return [shape, 'n0' in g.nodemap, list(g.initials), exact(np.asarray(t.get_numpy()), np.asarray(WANT[form]))]
            return [list(t.get_shape()), 'n0' in g.nodemap, list(g.initials), exact(np.asarray(t.get_numpy()), np.asarray(WANT[form]))]
        return Case(run, [list(np.shape(WANT[form])), not folding, ['k'] if folding else [], True], False, {'form': form})
    return fn


W6 = np.asarray([[1.5, -2, 3], [-4, 5, -6]], np.float32)
OPTIONAL = {          # nodes that leave out an operand before a given one: (operator, operands, attributes, value)
    'Clip': ('Clip', [W6, None, np.float32(2)], {}, np.minimum(W6, 2)), 'Clip below': ('Clip', [W6, np.float32(-1)], {}, np.maximum(W6, -1)),
    'Slice': ('Slice', [W6, np.asarray([0, 0]), np.asarray([2, 3]), None, np.asarray([1, 2])], {}, W6[:, ::2]),
    'Pad': ('Pad', [W6, np.asarray([0, 1, 0, 0]), None], {'mode': 'constant'}, np.pad(W6, [(0, 0), (1, 0)]))}


def optional(name):
    """a constant node that leaves out optional operands, read by a node that stays and by a constant one"""
    op, ins, at, want = OPTIONAL[name]

    def fn(v):
        first = choose(v, 'first', [False, True])
        further = choose(v, 'further', [False, True])

        def run():
            from onnx_tool.graph import Graph
            from onnx_tool.utils import ModelConfig
            names = ['' if x is None else 'k%d' % k for k, x in enumerate(ins)]
            nodes = [oh.make_node(op, names, ['c'], 'n0', **at)] + ([oh.make_node('Neg', ['c'], ['e'], 'n2')] if further else [])
            user = oh.make_node('Custom', ['x', 'e' if further else 'c'], ['y'], 'n1')
            m = oh.make_graph([user] + nodes if first else nodes + [user], 'g', [oh.make_tensor_value_info('x', 1, [2])], [oh.make_tensor_value_info('y', 1, None)],
                              [nh.from_array(np.asarray(x), n) for x, n in zip(ins, names) if n])
            g = Graph(m, ModelConfig({'constant_folding': True}))
            t = g.tensormap['e' if further else 'c']
            return [sorted(g.nodemap), list(g.initials), list(t.get_shape()), exact(np.asarray(t.get_numpy()), np.asarray(-want if further else want))]
        return Case(run, [['n1'], ['e' if further else 'c'], list(want.shape), True], False, {'node': name})
    return fn


SIZES = {'2 nodes': dict(slots=[2, 2], ops=['Sub', 'Mul'], consts=2), '3 nodes': dict(slots=[2, 1, 2], ops=['Sub', 'Neg', 'Mul'], consts=1),
         '3 nodes, 2 constants': dict(slots=[1, 2, 2], ops=['Abs', 'Sub', 'Max'], consts=2, free_outputs=False),
         'two results': dict(slots=[1, 2, 2], outs=[2, 1, 1], ops=['Split', 'Sub', 'Sub'], consts=1),
         'quantised weight': dict(slots=[2, 1, 2], ops=['DequantizeLinear', 'Neg', 'Sub'], consts=1), 'value not provided': dict(slots=[1, 2, 2], ops=['Neg', 'Custom', 'Sub'], consts=1),
         '4 nodes': dict(slots=[1, 1, 2, 2], ops=['Neg', 'Abs', 'Sub', 'Mul'], consts=1, free_outputs=False)}


def entries(tier):
    B = 'every wiring of graphs of that size'
    for name, size in SIZES.items():
        yield Entry('fold/%s' % name, ['C18'], fold(size, False), B)
        if len(size['slots']) < 4 or tier != 'quick':
            yield Entry('fold/%s/any file order' % name, ['C18'], fold(dict(size, free_outputs=False), True), B)
    for name in ('2 nodes', 'two results', 'quantised weight') + (() if tier == 'quick' else ('3 nodes', '3 nodes, 2 constants')):
        yield Entry('file/%s' % name, ['C18'], saved(dict(SIZES[name], free_outputs=name == '2 nodes')), B)
    for slots in ([2, 1], [1, 2, 1]):
        yield Entry('nested graph/%d nodes' % len(slots), ['C18'], nested(slots), B)
    for name in OPTIONAL:
        yield Entry('optional operand/%s' % name, ['C18'], optional(name), 'listed values')
    for form in FORMS:
        for folding in (False, True):
            yield Entry('constant node/%s/%s' % (form, 'folded' if folding else 'inferred'), ['C18'], constant(form, folding), 'listed values')
