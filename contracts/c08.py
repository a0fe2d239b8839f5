"""Order and relations on every wiring and file order of small graphs, after loading and after edits."""
import itertools
from pyvc.contract import Entry, Case
from .smallgraph import Wiring, snap, relations, recorded, choose
from . import c09


def facts(w):
    """what loading must record"""
    ini = set(w.ini)
    const = set(ini)
    for _, _, i, o in w.nodes:
        if all(x in const for x in i if x):
            const |= set(filter(None, o))
    used = [x for _, _, i, _ in w.nodes for x in i if x]
    made = [x for _, _, _, o in w.nodes for x in o if x]
    return {'inputs': sorted({x for x in used if x in w.gin}), 'constants': sorted(ini), 'computed': sorted(({x for x in used if x in w.gin}) | set(made)),
            'constant-valued': sorted(x for x in set(made) | ini | set(used) if x in const)}


def in_order(nodes, order):
    """every node once, after the producers of its inputs"""
    p, _ = relations(nodes)
    if sorted(order) != sorted(nodes):
        return False
    pos = {n: k for k, n in enumerate(order)}
    return all(pos[q] < pos[n] for n in order for i in nodes[n][1] if i for q in p.get(i, []))


def load(size, shuffle, half=None):
    def fn(v):
        from onnx_tool.graph import Graph
        from onnx_tool.tensor import STATIC_TENSOR
        from onnx_tool.utils import ModelConfig
        w = Wiring(v, **size)
        n = len(w.nodes)
        order = list(range(n))
        if shuffle:
            order = list(choose(v, 'order', [p for p in itertools.permutations(range(n)) if half is None or p[0] == half]))
        nodes = {m: [op, list(i), list(o)] for m, op, i, o in w.nodes}
        exp = dict(facts(w), nodes=nodes, relations=list(relations(nodes)), order=True, reordered=True, again=list(relations(nodes)))
        if not shuffle:
            p, c = relations(nodes)
            exp['predecessors'] = {m: sorted({q for i in x[1] if i for q in p.get(i, [])}) for m, x in nodes.items()}
            exp['successors'] = {m: sorted({q for o in x[2] for q in c.get(o, [])}) for m, x in nodes.items()}

        def run():
            g = Graph(w.proto(order), ModelConfig({}))
            r = {'inputs': sorted(x for x in g.input if x), 'constants': sorted(g.initials), 'computed': sorted(x for x in g.dynamics if x),
                 'constant-valued': sorted(t for t in set(w.ini) | {x for i in nodes.values() for x in i[1] + i[2] if x} if g.tensormap[t].type == STATIC_TENSOR),
                 'nodes': snap(g), 'relations': list(recorded(g))}
            if not shuffle:
                r['predecessors'] = {m: sorted({x.name for x in d.prevnodes}) for m, d in g.nodemap.items()}
                r['successors'] = {m: sorted({x.name for x in d.nextnodes}) for m, d in g.nodemap.items()}
            r['order'] = in_order(nodes, list(g.topsort_nodes(g.nodemap.keys(), g.input)))
            g.graph_reorder_nodes()
            r['reordered'] = in_order(nodes, list(g.nodemap)) and snap(g) == nodes
            r['again'] = list(recorded(g))
            return r
        return Case(run, exp, False, dict(w.text(), order=order))
    return fn


def part(size, names):
    """ordering part of a graph"""
    def fn(v):
        w = Wiring(v, **size)
        nodes = {m: [op, list(i), list(o)] for m, op, i, o in w.nodes}

        def run():
            g = c09.load(w)
            return in_order({m: nodes[m] for m in names}, list(g.topsort_nodes(list(names), g.input)))
        return Case(run, True, False, dict(w.text(), ordered=names))
    return fn


def nested(size, at, half):
    """a node with a nested graph comes after the producers of the tensors only the nested graph reads"""
    def fn(v):
        from onnx import helper as oh
        from onnx_tool.graph import Graph
        from onnx_tool.utils import ModelConfig
        w = Wiring(v, **size)
        n = len(w.nodes)
        t = choose(v, 'read', ['x'] + [o for _, _, _, os in w.nodes[:at] for o in os])
        order = list(choose(v, 'order', [p for p in itertools.permutations(range(n)) if p[0] == half]))
        nodes = {m: [op, list(i), list(o)] for m, op, i, o in w.nodes}
        name = 'n%d' % at
        deep = dict(nodes)
        deep[name] = [nodes[name][0], nodes[name][1] + [t], nodes[name][2]]
        inner = oh.make_graph([oh.make_node('Identity', [t], ['inner'], 'i')], 'body', [], [oh.make_tensor_value_info('inner', 1, None)])

        def run():
            m = w.proto(order)
            for k in m.node:
                if k.name == name:
                    k.attribute.append(oh.make_attribute('body', inner))
            g = Graph(m, ModelConfig({}))
            r = {'order': in_order(deep, list(g.topsort_nodes(g.nodemap.keys(), g.input)))}
            g.graph_reorder_nodes()
            r['reordered'] = in_order(deep, list(g.nodemap)) and snap(g) == nodes
            return r
        return Case(run, {'order': True, 'reordered': True}, False, dict(w.text(), order=order, nested={name: t}))
    return fn


def after(nodes, n):
    """the node and everything computed from its results"""
    _, c = relations(nodes)
    seen, todo = set(), [n]
    while todo:
        m = todo.pop()
        if m not in seen:
            seen.add(m)
            todo += [q for o in nodes[m][2] for q in c.get(o, [])]
    return seen


def unread(nodes, outs):
    """the nodes a graph output depends on"""
    p, _ = relations(nodes)
    seen, todo = set(), [m for m, x in nodes.items() if set(x[2]) & set(outs)]
    while todo:
        m = todo.pop()
        if m not in seen:
            seen.add(m)
            todo += [q for i in nodes[m][1] for q in p.get(i, [])]
    return {m: x for m, x in nodes.items() if m in seen}


def edited(size, edits, remains=False):
    """after a history of edits the recorded relations are those of the node lists; or what nodes and graph outputs remain"""
    def fn(v):
        w = Wiring(v, **size)
        nodes = {m: [op, list(i), list(o)] for m, op, i, o in w.nodes}
        outs = list(w.outs)
        for kind, arg in edits:
            if kind == 'skip':
                v.require(arg in nodes)
                r = c09.skipped(nodes, arg, w.ini, outs)
                v.require(r is not None)
                nodes, outs = r
            elif kind in ('remove', 'subtree'):
                v.require(arg in nodes)
                gone = {arg} if kind == 'remove' else after(nodes, arg)
                outs = [o for o in outs if not any(o in nodes[m][2] for m in gone)]
                nodes = {m: x for m, x in nodes.items() if m not in gone}
            elif kind == 'dangling':
                nodes = unread(nodes, outs)
            else:
                v.require(all(a in nodes for a in arg))
                v.require(c09.convex(nodes, arg))
                i, o = c09.boundary(nodes, arg, outs)
                new = 'fused' if kind == 'fuse' else arg[0]
                op = 'Fused' if kind == 'fuse' else nodes[arg[0]][0]
                nodes = {m: x for m, x in nodes.items() if m not in arg}
                nodes[new] = [op, i, o]

        def run():
            g = c09.load(w)
            for kind, arg in edits:
                if kind == 'skip':
                    g.skip_node(arg)
                elif kind == 'remove':
                    g.remove_node(arg)
                elif kind == 'subtree':
                    g.remove_subtree(arg)
                elif kind == 'dangling':
                    g.remove_dangling_nodes()
                elif kind == 'fuse':
                    g.fuse_subgraph_node_names(list(arg), 'Fused', 'fused', True)
                else:
                    g.fuse_postop_node_names(list(arg), False)
            s = snap(g)
            r = {'recorded': list(recorded(g)) == list(relations(s)), 'names': all(d.name == m for m, d in g.nodemap.items())}
            g.update_tensor_relations()
            r['again'] = list(recorded(g)) == list(relations(s))
            r['order'] = in_order(s, list(g.topsort_nodes(g.nodemap.keys(), g.input)))
            if remains:
                return {'nodes': {m: [x[0], sorted(x[1]), sorted(x[2])] for m, x in s.items()}, 'outputs': sorted(set(g.output))}
            return r
        exp = {'recorded': True, 'names': True, 'again': True, 'order': True}
        if remains:
            exp = {'nodes': {m: [x[0], sorted(x[1]), sorted(x[2])] for m, x in nodes.items()}, 'outputs': sorted(set(outs))}
        return Case(run, exp, False, dict(w.text(), edits=edits))
    return fn


LEFT = dict(slots=[1, 2, 2], outs=[2, 1, 2], consts=0, optional=True, absent=True, free_outputs=False)
LOAD = {'3 nodes, left out': LEFT, '2 nodes': dict(slots=[2, 2], outs=[2, 2], optional=True), '3 nodes': dict(slots=[1, 2, 2]), '4 nodes': dict(slots=[1, 1, 2, 2], free_outputs=False, consts=0),
        '4 nodes, constants': dict(slots=[1, 1, 1, 2], free_outputs=False, consts=1), '3 nodes, 2 inputs': dict(slots=[2, 1, 2], inputs=2, free_outputs=False)}
BIG = {'5 nodes': dict(slots=[1, 1, 1, 1, 2], consts=0, free_outputs=False)}
EDIT = dict(slots=[1, 1, 2, 1], free_outputs=False)
EDIT3 = dict(slots=[1, 2, 1, 1], outs=[2, 1, 2, 1], consts=0, optional=True, absent=True, free_outputs=False)
EDIT2 = dict(slots=[1, 2, 1, 1], outs=[2, 1, 1, 1], consts=0)

ONE = [('skip', 'n%d' % k) for k in (0, 1, 3)] + [('fuse', n) for n in (['n0', 'n1'], ['n1', 'n2'], ['n0', 'n2'], ['n2', 'n3'], ['n1'], ['n0', 'n1', 'n2'])]
ONE += [('post', n) for n in (['n0', 'n1'], ['n1', 'n2'], ['n2', 'n3'])]


def removals():
    """histories with removed nodes"""
    rm = [(k, 'n%d' % j) for k in ('remove', 'subtree') for j in range(4)]
    for a in rm + [('dangling', '')]:
        yield 'edit/%s %s' % a, EDIT, [a]
        yield 'edit/%s %s/results of two tensors' % a, EDIT2, [a]
    for a in rm:
        yield 'edits/%s %s/dangling/results of two tensors' % a, EDIT2, [a, ('dangling', '')]
    for a in rm:
        yield 'edits/%s %s/dangling/left out' % a, EDIT3, [a, ('dangling', '')]
    for a in rm + ONE:
        n = a[1] if isinstance(a[1], str) else '+'.join(a[1])
        gone = [a[1]] if isinstance(a[1], str) else a[1]
        yield 'edits/%s %s/dangling' % (a[0], n), EDIT, [a, ('dangling', '')]
        for b in rm:
            if b[1] not in gone:
                yield 'edits/%s %s/%s %s' % (a[0], n, b[0], b[1]), EDIT, [a, b]


def entries(tier):
    B = 'every wiring of graphs of that size'
    for s, size in dict(LOAD, **(BIG if tier != 'quick' else {})).items():
        yield Entry('load/%s/topological file' % s, ['C08'], load(size, False), B)
        for k in range(len(size['slots'])):
            yield Entry('load/%s/file order starting with node %d' % (s, k), ['C08'], load(size, True, k), B)
        for names in c09.subsets(len(size['slots'])):
            yield Entry('order/%s/%s' % (s, '+'.join(names)), ['C08'], part(size, names), B)
    two = ONE + [('skip', 'fused'), ('fuse', ['fused', 'n3'])]
    for at in (1, 2, 3):
        for k in range(4):
            yield Entry('nested graph/node %d/file order starting with node %d' % (at, k), ['C08'], nested(dict(slots=[1, 1, 1, 1], consts=0, free_outputs=False), at, k), B)
    for a in ONE:
        yield Entry('edit/%s %s' % (a[0], '+'.join(a[1]) if isinstance(a[1], list) else a[1]), ['C08'], edited(EDIT, [a]), B)
    for name, size, edits in removals():
        yield Entry(name, ['C08'], edited(size, edits), B)
    for a, b in itertools.product(ONE, two):
        gone = a[1] if a[0] == 'fuse' else [a[1]] if a[0] == 'skip' else a[1][1:]
        uses = b[1] if isinstance(b[1], list) else [b[1]]
        if set(gone) & set(uses) or ('fused' in uses and a[0] != 'fuse') or (b[0] == 'fuse' and a[0] == 'fuse'):
            continue
        if b == ('skip', 'fused') and a[1] not in (['n0', 'n1'], ['n1']):
            continue
        f = '/'.join('%s %s' % (x[0], '+'.join(x[1]) if isinstance(x[1], list) else x[1]) for x in (a, b))
        yield Entry('edits/%s' % f, ['C08'], edited(EDIT, [a, b]), B)
