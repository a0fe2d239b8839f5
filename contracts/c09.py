"""Graph edits on every wiring of small graphs: node lists, boundaries and graph inputs and outputs after the edit."""
import contextlib
import itertools
import os
import tempfile
import onnx
from onnx import helper as oh
from pyvc.contract import Entry, Case
from .smallgraph import Wiring, snap, relations, recorded, choose


def skipped(nodes, n, ini, outs):
    """(nodes, graph outputs) after node n is skipped; None when it is no node with one computed input and one output"""
    _, i, o = nodes[n]
    dyn = {x for x in i if x and x not in ini}
    if len([x for x in i if x and x not in ini]) != 1 or len(o) != 1:
        return None
    d, t = dyn.pop(), o[0]
    made = {x for _, _, os_ in nodes.values() for x in os_}
    old, new = (d, t) if t in outs and d in made and d not in outs else (t, d)

    def f(xs):
        return [new if x == old else x for x in xs]
    rest = {m: [op, f(i), f(o) if old == d else list(o)] for m, (op, i, o) in nodes.items() if m != n}
    return rest, [d if x == t else x for x in outs] if old == t else list(outs)


def boundary(nodes, names, outs, ini=(), drop=False):
    """what a group reads from outside, what is read outside or returned"""
    made = {x for n in names for x in nodes[n][2] if x}
    read = {x for n in names for x in nodes[n][1] if x}
    out = {x for m in nodes if m not in names for x in nodes[m][1]}
    used = {x for m in nodes for x in nodes[m][1]}
    return sorted(x for x in read - made if not (drop and x in ini)), sorted(x for x in made if x in out or x in outs or x not in used)


def convex(nodes, names):
    p, c = relations(nodes)
    todo = [q for n in names for o in nodes[n][2] for q in c.get(o, []) if q not in names]
    seen = set()
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        for o in nodes[q][2]:
            for r in c.get(o, []):
                if r in names:
                    return False
                todo.append(r)
    return True


def load(w):
    from onnx_tool.graph import Graph
    from onnx_tool.utils import ModelConfig
    return Graph(w.proto(), ModelConfig({}))


def observe(g, rel=True):
    r = {'nodes': snap(g), 'inputs': sorted(i for i in g.input if i), 'outputs': sorted(set(g.output))}
    if rel:
        r['relations'] = list(recorded(g))
    return r


def specified(nodes, gin, outs, rel=True):
    r = {'nodes': nodes, 'inputs': sorted(gin), 'outputs': sorted(set(outs))}
    if rel:
        r['relations'] = list(relations(nodes))
    return r


def used_inputs(w):
    used = {i for _, _, ins, _ in w.nodes for i in ins}
    return [x for x in w.gin if x in used]


def skip(size, at, then=None):
    """skip one node, then possibly another"""
    def fn(v):
        w = Wiring(v, **size)
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in w.nodes}
        exp, outs = nodes, list(w.outs)
        for k in [at] + ([] if then is None else [then]):
            r = skipped(exp, 'n%d' % k, w.ini, outs)
            v.require(r is not None)
            exp, outs = r

        def run():
            g = load(w)
            g.skip_node('n%d' % at)
            if then is not None:
                g.skip_node('n%d' % then)
            return observe(g)
        return Case(run, specified(exp, used_inputs(w), outs), False, dict(w.text(), skipped=[at, then]))
    return fn


def drop_ops(size):
    """removing an operator type"""
    def fn(v):
        w = Wiring(v, **size)
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in w.nodes}
        exp, outs = nodes, list(w.outs)
        for n, (op, _, _) in nodes.items():
            if op == 'Flatten':
                r = skipped(exp, n, w.ini, outs)
                v.require(r is not None)
                exp, outs = r

        def run():
            from onnx_tool.fusion import removeShapeOps
            g = load(w)
            g = removeShapeOps(g) or g
            return observe(g)
        return Case(run, specified(exp, used_inputs(w), outs), False, w.text())
    return fn


def fuse(size, names, post):
    """fuse a convex group"""
    def fn(v):
        w = Wiring(v, **size)
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in w.nodes}
        v.require(convex(nodes, names))
        ins, outs = boundary(nodes, names, w.outs)
        new = names[0] if post else 'fused'
        exp = {n: x for n, x in nodes.items() if n not in names}
        exp[new] = [nodes[names[0]][0] if post else 'Fused', ins, outs]

        def run():
            g = load(w)
            if post:
                g.fuse_postop_node_names(list(names), post == 2)
            else:
                g.fuse_subgraph_node_names(list(names), 'Fused', 'fused', False)
            if new in g.nodemap:
                g.nodemap[new].input = sorted(g.nodemap[new].input)
                g.nodemap[new].output = sorted(g.nodemap[new].output)
            return observe(g)
        return Case(run, specified(exp, used_inputs(w), w.outs), False, dict(w.text(), group=names))
    return fn


def extract(size, names):
    """extract a group as a model; the graph itself stays as it is"""
    def fn(v):
        w = Wiring(v, **size)
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in w.nodes}
        ins, outs = boundary(nodes, names, w.outs, w.ini, True)

        def run():
            g = load(w)
            gp = g.get_onnxgraph_by_nodenames(list(names))
            ini = {t.name for t in gp.initializer}
            return {'nodes': {n.name: [n.op_type, list(n.input), list(n.output)] for n in gp.node}, 'inputs': sorted({t.name for t in gp.input} - ini),
                    'outputs': sorted(t.name for t in gp.output), 'constants': sorted(ini), 'graph': observe(g)}
        exp = {'nodes': {n: nodes[n] for n in names}, 'inputs': ins, 'outputs': outs, 'constants': sorted({i for n in names for i in nodes[n][1]} & set(w.ini)),
               'graph': specified(nodes, used_inputs(w), w.outs)}
        return Case(run, exp, False, dict(w.text(), group=names))
    return fn


def levels(size, lo, cut, files=True):
    """three levels between tensors"""
    def fn(v):
        w = Wiring(v, **size)
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in w.nodes}
        v.require(any(lo in i for _, i, _ in nodes.values()) and any(cut in i for _, i, _ in nodes.values()))

        def after(t):
            seen, todo = set(), [t]
            while todo:
                t = todo.pop()
                for n, (_, i, o) in nodes.items():
                    if t in i and n not in seen:
                        seen.add(n)
                        todo += [x for x in o if x]
            return seen
        l2 = after(cut)
        l1 = after(lo) - l2
        l0 = set(nodes) - l1 - l2
        if not files:
            return {'nodes': nodes, 'between': l1, 'wiring': w}
        v.require(bool(l0 and l1 and l2))

        def run():
            g = load(w)
            out = []
            for gg in g.get_subgraph([lo], [cut]):
                out.append([snap(gg), sorted(set(gg.input) - set(w.ini))])
            return out
        exp = []
        for l in (l0, l1, l2):
            exp.append([{n: x for n, x in nodes.items() if n in l}, boundary(nodes, l, w.outs, w.ini, True)[0]])
        return Case(run, exp, False, dict(w.text(), given=w.gin, constants=w.ini, inputs=lo, cut=cut))
    return fn


OPERANDS = {('Reshape', 2): (1,), ('Expand', 2): (1,), ('Tile', 2): (1,), ('TopK', 2): (1,), ('Slice', 3): (1, 2), ('ConstantOfShape', 1): (0,)}


def compute(size):
    """the compute graph: what graph outputs depend on through data stays, what only feeds shape operands goes"""
    def fn(v):
        w = Wiring(v, **size)
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in w.nodes}
        p, _ = relations(nodes)

        def shapes(n):
            return OPERANDS.get((nodes[n][0], len(nodes[n][1])), ())
        need, todo = set(), [n for n, x in nodes.items() if set(x[2]) & set(w.outs)]
        while todo:
            n = todo.pop()
            if n not in need:
                need.add(n)
                todo += [q for k, i in enumerate(nodes[n][1]) if k not in shapes(n) for q in p.get(i, [])]
        feed, todo = set(), [q for n, x in nodes.items() for k, i in enumerate(x[1]) if k in shapes(n) for q in p.get(i, [])]
        while todo:
            n = todo.pop()
            if n not in feed:
                feed.add(n)
                todo += [] if nodes[n][0] == 'Shape' else [q for i in nodes[n][1] for q in p.get(i, [])]

        def run():
            g = load(w)
            c = g.get_compute_graph()
            s = snap(c)
            return {'kept': {n: s.get(n) for n in need}, 'dropped': sorted(set(s) & (feed - need)), 'rest': sorted(n for n in s if nodes.get(n) != s[n]), 'inputs': sorted(c.input),
                    'outputs': sorted(set(c.output)), 'relations': list(recorded(c)) == list(relations(s)), 'graph': observe(g)}
        exp = {'kept': {n: nodes[n] for n in need}, 'dropped': [], 'rest': [], 'inputs': used_inputs(w), 'outputs': sorted(set(w.outs)), 'relations': True, 'graph': specified(nodes, used_inputs(w), w.outs)}
        return Case(run, exp, False, w.text())
    return fn


def rename(size):
    """renamed nodes: same node lists, consistent names"""
    def fn(v):
        from onnx_tool.graph import Graph
        from onnx_tool.utils import ModelConfig
        w = Wiring(v, **size)
        nodes = [[op, list(i), list(o)] for n, op, i, o in w.nodes]

        def run():
            g = Graph(w.proto(), ModelConfig({'node_rename': True}))
            s = snap(g)
            return {'nodes': list(s.values()), 'names': [d.name for d in g.nodemap.values()] == list(s) and len(s) == len(nodes), 'consistent': list(recorded(g)) == list(relations(s))}
        return Case(run, {'nodes': nodes, 'names': True, 'consistent': True}, False, w.text())
    return fn


def file_nodes(g):
    return {n.name: [n.op_type, list(n.input), list(n.output)] for n in g.node}


def whole(w):
    m = w.proto()
    for x in m.output:
        x.type.tensor_type.elem_type = 1
    return oh.make_model(m, opset_imports=[oh.make_opsetid('', 13)], ir_version=8)


def extract_file(size, names):
    """the file with the requested nodes"""
    def fn(v):
        w = Wiring(v, **size)
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in w.nodes}
        ins, outs = boundary(nodes, names, w.outs, w.ini, True)

        def run():
            import onnx_tool
            with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(None):
                p = os.path.join(d, 'm.onnx')
                onnx.save_model(whole(w), p)
                onnx_tool.model_subgraph(p, nodenames=list(names), save_folder=d)
                f = sorted(x for x in os.listdir(d) if x != 'm.onnx')
                s = onnx.load_model(os.path.join(d, f[0])) if len(f) == 1 else None
            return [len(f)] if s is None else {'nodes': file_nodes(s.graph), 'inputs': sorted(t.name for t in s.graph.input), 'outputs': sorted(t.name for t in s.graph.output),
                                               'constants': sorted(t.name for t in s.graph.initializer), 'opset': [o.version for o in s.opset_import], 'ir': s.ir_version}
        exp = {'nodes': {n: nodes[n] for n in names}, 'inputs': ins, 'outputs': outs, 'constants': sorted({i for n in names for i in nodes[n][1]} & set(w.ini)), 'opset': [13], 'ir': 8}
        return Case(run, exp, False, dict(w.text(), group=names))
    return fn


def fuse_file(size, names):
    """the file with the group fused"""
    def fn(v):
        w = Wiring(v, **size)
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in w.nodes}
        v.require(convex(nodes, names))
        ins, outs = boundary(nodes, names, w.outs)
        keep = choose(v, 'keep attributes', [True, False])
        exp = {n: x for n, x in nodes.items() if n not in names}
        exp['new'] = ['Fused', ins, outs]

        def run():
            import onnx_tool
            with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(None):
                p = os.path.join(d, 's.onnx')
                onnx_tool.model_opfusion(whole(w), 'Fused', 'new', p, nodenames=list(names), keep_attr=keep)
                s = onnx.load_model(p).graph
            r = file_nodes(s)
            if 'new' in r:
                r['new'] = [r['new'][0], sorted(r['new'][1]), sorted(r['new'][2])]
            from .c08 import in_order
            return {'nodes': r, 'order': in_order(r, [n.name for n in s.node]), 'inputs': sorted(t.name for t in s.input), 'outputs': sorted(t.name for t in s.output),
                    'constants': sorted(t.name for t in s.initializer)}
        read = {x for _, i, _ in nodes.values() for x in i}
        return Case(run, {'nodes': exp, 'order': True, 'inputs': used_inputs(w), 'outputs': sorted(w.outs), 'constants': sorted(read & set(w.ini))}, False, dict(w.text(), group=names))
    return fn


def levels_file(size, lo, cut):
    """the files of the three levels hold every node once, with its connections"""
    inner = levels(size, lo, cut)

    def fn(v):
        case = inner(v)
        d = case.desc
        nodes = {n: [op, list(i), list(o)] for n, op, i, o in d['nodes']}
        w = Wiring.__new__(Wiring)
        w.nodes, w.outs, w.gin, w.ini = d['nodes'], d['outputs'], d['given'], d['constants']

        def run():
            import onnx_tool
            with tempfile.TemporaryDirectory() as t, contextlib.redirect_stdout(None):
                p = os.path.join(t, 'm.onnx')
                onnx.save_model(whole(w), p)
                onnx_tool.model_subgraph(p, [lo], [cut], save_folder=t)
                s = [file_nodes(onnx.load_model(os.path.join(t, x)).graph) for x in sorted(os.listdir(t)) if x != 'm.onnx']
            return s
        return Case(run, [x[0] for x in case.expect], False, d)
    return fn


def fuse_between(size, lo, cut):
    """the nodes between tensors become one node when they hang together"""
    inner = levels(size, lo, cut, False)

    def fn(v):
        d = inner(v)
        nodes, l1 = d['nodes'], sorted(d['between'])
        v.require(len(l1) > 0)
        v.require(convex(nodes, l1))
        w = d['wiring']
        p, c = relations(nodes)
        part, todo = set(), [l1[0]]
        while todo:
            n = todo.pop()
            if n in l1 and n not in part:
                part.add(n)
                todo += [q for i in nodes[n][1] if i for q in p.get(i, [])] + [q for o in nodes[n][2] for q in c.get(o, [])]
        exp = dict(nodes)
        if part == set(l1):
            ins, outs = boundary(nodes, l1, w.outs)
            exp = {n: x for n, x in nodes.items() if n not in l1}
            exp['new_0'] = ['Fused', ins, outs]

        def run():
            g = load(w)
            g.fuse_subgraph_iotensors([lo], [cut], 'Fused', 'new', False)
            if 'new_0' in g.nodemap:
                g.nodemap['new_0'].input = sorted(g.nodemap['new_0'].input)
                g.nodemap['new_0'].output = sorted(g.nodemap['new_0'].output)
            return observe(g)
        return Case(run, specified(exp, used_inputs(w), w.outs), False, dict(w.text(), between=[lo, cut]))
    return fn


def subsets(n):
    for k in range(1, n + 1):
        for s in itertools.combinations(range(n), k):
            yield ['n%d' % i for i in s]


SIZES = {'2 nodes of 2 outputs': dict(slots=[2, 2], outs=[2, 2], optional=True), '3 nodes': dict(slots=[1, 2, 2]), '4 nodes': dict(slots=[1, 1, 2, 2], free_outputs=False),
         '3 nodes, 2 inputs': dict(slots=[2, 1, 2], inputs=2),
         '3 nodes, left out': dict(slots=[2, 2, 1], outs=[2, 1, 2], consts=0, optional=True, absent=True, free_outputs=False)}
BIG = {'4 nodes, any outputs': dict(slots=[1, 1, 2, 2]), '5 nodes': dict(slots=[1, 1, 1, 1, 2], consts=0, free_outputs=False)}


def entries(tier):
    B = 'every wiring of graphs of that size'
    sizes = dict(SIZES, **(BIG if tier != 'quick' else {}))
    for s, size in sizes.items():
        n = len(size['slots'])
        one = [k for k in range(n) if size.get('outs', [1] * n)[k] == 1]
        for k in one:
            yield Entry('skip/%s/node %d' % (s, k), ['C09'], skip(size, k), B)
            for j in one:
                if j != k:
                    yield Entry('skip/%s/node %d then %d' % (s, k, j), ['C09'], skip(size, k, j), B)
        for names in subsets(n):
            for post in (0, 1, 2):
                yield Entry('fuse/%s/%s/%s' % (s, '+'.join(names), ['new node', 'after first', 'after first, with attributes'][post]), ['C09'], fuse(size, names, post), B)
            yield Entry('extract/%s/%s' % (s, '+'.join(names)), ['C09'], extract(size, names), B)
        yield Entry('rename/%s' % s, ['C09'], rename(size), B)
        made = ['t%da' % k for k in range(n)]
        gin = ['x'] if size.get('inputs', 1) == 1 else ['x0', 'x1']
        if n > 2:
            for a, lo in enumerate(gin + made[:-1]):
                if lo in gin and size.get('consts', 1) == 0 and len(gin) == 1:
                    continue  # no node comes before it
                for cut in made[max(0, a - len(gin) + 1):-1]:
                    if lo in gin or cut != made[-2] or n > 3:
                        yield Entry('levels/%s/%s/%s' % (s, lo, cut), ['C09'], levels(size, lo, cut), B)
            for ops in itertools.product(('Flatten', 'Custom'), repeat=n) if len(one) == n else ():
                if 'Flatten' in ops:
                    yield Entry('remove/%s/%s' % (s, ' '.join(ops)), ['C09'], drop_ops(dict(size, ops=ops)), B)
    for ops in (['Shape', 'Reshape', 'Custom'], ['Custom', 'Shape', 'Reshape'], ['Shape', 'Custom', 'Expand'], ['Custom', 'Tile', 'Slice'], ['Shape', 'ConstantOfShape', 'Custom']):
        slots = [{'Shape': 1, 'ConstantOfShape': 1, 'Slice': 3}.get(o, 2) for o in ops]
        yield Entry('compute graph/%s' % ' '.join(ops), ['C09'], compute(dict(slots=slots, ops=ops, consts=0 if 'Slice' in ops else 1)), B)
    for ops in (['Custom', 'Shape', 'Custom', 'Reshape'], ['Shape', 'Custom', 'Reshape', 'Custom'], ['Custom', 'Custom', 'Shape', 'Reshape'], ['Shape', 'Reshape', 'Shape', 'Expand']):
        slots = [{'Shape': 1, 'Custom': 1 + (k == 3)}.get(o, 2) for k, o in enumerate(ops)]
        yield Entry('compute graph/%s' % ' '.join(ops), ['C09'], compute(dict(slots=slots, ops=ops, consts=0)), B)
    yield Entry('compute graph/left out', ['C09'], compute(dict(SIZES['3 nodes, left out'], ops=['Custom', 'Custom', 'Shape'])), B)
    small = dict(slots=[1, 2, 1], consts=1)
    for names in subsets(3):
        if len(names) < 3:
            yield Entry('file/extract/%s' % '+'.join(names), ['C09'], extract_file(small, names), B)
        yield Entry('file/fuse/%s' % '+'.join(names), ['C09'], fuse_file(dict(small, free_outputs=False), names), B)
    for lo, cut in (('x', 't0a'), ('x', 't1a'), ('t0a', 't1a')):
        yield Entry('file/levels/%s/%s' % (lo, cut), ['C09'], levels_file(dict(slots=[1, 2, 2, 1] if lo != 'x' else [2, 1, 2], free_outputs=False), lo, cut), B)
    for outs, lo, cut in (([1, 1, 2, 1], 't0a', 't1a'), ([2, 2, 1, 1], 't0b', 't1b'), ([1, 2, 1, 1], 't0a', 't1a')):
        yield Entry('levels/results of two tensors/%s/%s/%s' % (' '.join(map(str, outs)), lo, cut), ['C09'], levels(dict(slots=[1, 1, 2, 1], outs=outs, consts=0, free_outputs=False), lo, cut), B)
    for slots, lo, cut in (([1, 1, 1], 'x', 't1a'), ([2, 2, 1], 'x', 't1a'), ([1, 2, 2], 't0a', 't1a'), ([1, 2, 2, 1], 'x', 't2a'), ([1, 2, 2, 1], 't0a', 't2a'), ([1, 1, 2, 2], 'x', 't2a')):
        yield Entry('fuse between/%s/%s/%s' % (' '.join(map(str, slots)), lo, cut), ['C09'], fuse_between(dict(slots=slots, ops=['OpA', 'OpB', 'OpC', 'OpD'][:len(slots)], free_outputs=len(slots) < 4), lo, cut), B)
    from . import c08
    for name, size, edits in c08.removals():
        if edits[-1][0] in ('remove', 'subtree', 'dangling'):
            yield Entry(name, ['C09'], c08.edited(size, edits, True), B)
