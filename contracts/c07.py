"""Totals of a profile: the loop over the covered nodes adds each node's figures to any totals so far, whole graphs with symbolic figures,
deduplicated constants, exclusions and call histories."""
import itertools
from fractions import Fraction
import numpy as np
from pyvc.contract import Entry, Case, count
from spec.sym import And, Implies
from .smallgraph import Wiring
from .c09 import load

BYTES = {'float32': 4, 'float16': 2, 'int8': 1, 'int64': 8}


def setup(v, w, shapes):
    """graph with symbolic extents and node figures"""
    g = load(w)
    ext = {}
    for t in sorted(set(g.tensormap)):
        if t == '':
            continue
        ext[t] = [v.int('%s_%d' % (t, k), 1, 9) if v.native else v.int('%s_%d' % (t, k), 1) for k in range(shapes.get(t, 1))]
    fig = {n: [v.int('%s_%s' % (what, n), 0, 99) if v.native else v.int('%s_%s' % (what, n), 0) for what in ('macs', 'io', 'static')] for n in g.nodemap}
    return g, ext, fig


def install(g, ext, fig, dt='float32'):
    for t, s in ext.items():
        g.tensormap[t].update_shape(list(s))
        if t not in g.initials:
            g.tensormap[t].update_dtype(np.dtype(dt).type)
    for n, d in g.nodemap.items():
        # contract of a node's cost: any figures
        d.profile = lambda i, o, f=fig[n]: list(f)
    g.valid_shape = True


def vol(v, s):
    return count(v, s)


def node_params(v, w, ext, n):
    return sum([vol(v, ext[i]) for m, _, ins, _ in w.nodes if m == n for i in ins if i in w.ini] + [0])


def whole(size, excl, dt='float32', history=()):
    """totals, node figures and deduplicated parameters of a whole graph, after earlier calls"""
    def fn(v):
        w = Wiring(v, **size)
        const = set(w.ini)
        for _, _, ins, _ in w.nodes:
            v.require(not all(i in const for i in ins))       # constant folding has removed nodes with constant inputs only
        g, ext, fig = setup(v, w, {'w0': 2})
        cov = [n for n, op, _, _ in w.nodes if op not in (excl or ())]
        used = {i for _, _, ins, _ in w.nodes for i in ins}

        def run():
            install(g, ext, fig, dt)
            for e in history:
                g.profile(e)
            g.profile(excl)
            r = {'valid': bool(g.valid_profile), 'macs': g.macs[0], 'params': g.params, 'memory': g.memory == sum([g.nodemap[n].memory for n in cov] + [0]), 'deduplicated': g.dedup_params}
            for n in cov:
                r[n] = [g.nodemap[n].macs, g.nodemap[n].params, g.nodemap[n].memory]
            return r
        first = {n: ins[0] for n, _, ins, _ in w.nodes}
        exp = {'valid': True, 'macs': sum([fig[n][0] for n in cov] + [0]), 'params': sum([node_params(v, w, ext, n) for n in cov] + [0]), 'memory': True,
               'deduplicated': sum([vol(v, ext[t]) for t in w.ini if t in used] + [0])}
        for n in cov:
            exp[n] = [fig[n][0], node_params(v, w, ext, n), fig[n][1] * BYTES[dt] + fig[n][2] * (4 if first[n] in w.ini else BYTES[dt])]
        return Case(run, exp, False, dict(w.text(), excluded=excl, history=history, extents=ext, figures=fig))
    return fn


class Done(BaseException):
    pass


KEYS = ('macs', 'params', 'memory', 'node')


def step(slots, excl=None):
    """invariant of the loop over the covered nodes: from any totals so far, a node adds its figures; at the start the totals are 0"""
    def fn(v):
        w = Wiring(v, slots=[slots], consts=2, optional=True, ops=['A'])
        g, ext, fig = setup(v, w, {'w0': 2, 'x': 3})
        before = [v.int('before_%s' % k, 0) for k in ('macs', 'params', 'memory')]

        def run():
            install(g, ext, fig)
            if v.native:
                g.profile(excl)             # the totals in the middle of the loop are not reachable natively
                return dict.fromkeys(KEYS, True)
            from pyvc import loops
            from pyvc.path import Gone
            ok = dict.fromkeys(KEYS, True)
            res = {}

            def accepts(loc, it):
                return not res and loc.get('self') is g and it is loc.get('ops_to_cover')

            def iterate(loc, it):
                if not (isinstance(getattr(g, 'macs', None), list) and hasattr(g, 'params') and hasattr(g, 'memory')) or list(it) != ['n0']:
                    raise Gone('other loop state')
                res['cut'] = True
                ok['macs'] = g.macs[0] == 0
                ok['params'] = g.params == 0
                ok['memory'] = g.memory == 0
                g.macs[0], g.params, g.memory = before
                yield 'n0'
                d = g.nodemap['n0']
                ok['macs'] = And(ok['macs'], And(g.macs[0] == before[0] + fig['n0'][0], d.macs == fig['n0'][0]))
                ok['params'] = And(ok['params'], And(g.params == before[1] + node_params(v, w, ext, 'n0'), d.params == node_params(v, w, ext, 'n0')))
                ok['memory'] = And(ok['memory'], g.memory == before[2] + d.memory)
                ok['node'] = d.memory == (fig['n0'][1] + fig['n0'][2]) * 4
                raise Done()
            loops.CUT[:] = [(accepts, iterate)]
            try:
                g.profile(excl)
                if not res:
                    raise Gone('the loop over the covered nodes has another form')
            except Done:
                pass
            finally:
                loops.CUT[:] = []
            return ok
        return Case(run, dict.fromkeys(KEYS, True), False, dict(w.text(), figures=fig))
    return fn


def amount(v, cell, value):
    """the cell shows that number"""
    if v.native:
        return cell.replace(',', '') == str(int(value))
    from pyvc.values import reading
    r = reading(cell)
    if r is None:
        return value == int(cell.replace(',', '')) if cell.replace(',', '').isdigit() else False
    return r[0] == value if r[1] in ('', ',', 'd', ',d') else False


def share(v, cell, value, total):
    """the cell shows value / total as a percentage; 0 when the total is 0"""
    if v.native:
        return cell.endswith('%') and abs(float(cell[:-1]) / 100 - (value / total if total else 0)) < 5.1e-5
    from pyvc.values import reading
    r = reading(cell)
    if r is None and cell.endswith('%'):
        r = reading(cell[:-1])
        if r is not None and r[1] == '.2f':
            r = (r[0] / 100, '.2%')
        elif r is None:
            return Implies(total * Fraction(cell[:-1]) == 100 * value, value == 0)
    if r is None or r[1] != '.2%':
        return False
    d = value - r[0] * total
    return And(Implies(total > 0, And(d * 10 ** 9 <= 1, d * 10 ** 9 >= -1)), Implies(total == 0, r[0] == 0))


def table(size, excl, metric):
    """rows of the printed table: every covered node once with its figures and shares, then the totals"""
    def fn(v):
        w = Wiring(v, **size)
        const = set(w.ini)
        for _, _, ins, _ in w.nodes:
            v.require(not all(i in const for i in ins))
        g, ext, fig = setup(v, w, {'w0': 2})
        cov = [n for n, op, _, _ in w.nodes if op not in (excl or ())]
        ops = {n: op for n, op, _, _ in w.nodes}
        fac = 2 if metric == 'FLOPs' else 1

        def run():
            import contextlib, csv, io, os, tempfile
            install(g, ext, fig)
            g.profile(excl)
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, 't.csv')
                with contextlib.redirect_stdout(io.StringIO()):
                    g.print_node_map(p, metric=metric, exclude_ops=excl)
                with open(p) as f:
                    rows = list(csv.reader(f))
            col = {h: k for k, h in enumerate(rows[0])}
            body = [r for r in rows[1:] if r[0] not in ('Total', 'Dedup_Params')]
            tot = [r for r in rows[1:] if r[0] == 'Total']
            ded = [r for r in rows[1:] if r[0] == 'Dedup_Params']
            r = {'rows': sorted(b[0] for b in body), 'types': all(ops[b[0]] == b[1] for b in body), 'totals': len(tot)}
            T = {'Forward_' + metric: g.macs[0] * fac, 'Memory': g.memory, 'Params': g.params}
            for c, t in T.items():
                r['total ' + c] = amount(v, tot[0][col[c]], t)
            for b in body:
                n = g.nodemap[b[0]]
                for c, p, x in (('Forward_' + metric, 'FPercent', n.macs * fac), ('Memory', 'MPercent', n.memory), ('Params', 'PPercent', n.params)):
                    r['%s %s' % (b[0], c)] = amount(v, b[col[c]], x)
                    r['%s %s' % (b[0], p)] = share(v, b[col[p]], x, T[c])
            r['deduplicated'] = And(amount(v, ded[0][col['Params']], g.dedup_params), g.dedup_params != g.params) if len(ded) == 1 else g.dedup_params == g.params if not ded else False
            return r
        exp = dict.fromkeys(['types', 'deduplicated'] + ['total ' + c for c in ('Forward_' + metric, 'Memory', 'Params')] +
                            ['%s %s' % (n, c) for n in cov for c in ('Forward_' + metric, 'Memory', 'Params', 'FPercent', 'MPercent', 'PPercent')], True)
        exp.update(rows=sorted(cov), totals=1)
        return Case(run, exp, False, dict(w.text(), excluded=excl, extents=ext, figures=fig))
    return fn


def shared_model(order):
    """a model one of whose constants is used twice"""
    import onnx
    from onnx import helper as oh, numpy_helper as nh
    nodes = [oh.make_node('MatMul', ['x', 'w'], ['h'], 'm0'), oh.make_node('Add', ['h', 'b'], ['a'], 'add'), oh.make_node('Relu', ['a'], ['r'], 'relu'), oh.make_node('Identity', ['r'], ['i'], 'id'),
             oh.make_node('MatMul', ['i', 'w'], ['k'], 'm1'), oh.make_node('Concat', ['k', 'r'], ['y'], 'cat', axis=0)]
    g = oh.make_graph([nodes[k] for k in order], 'g', [oh.make_tensor_value_info('x', 1, ['n', 3])], [oh.make_tensor_value_info('y', 1, None)],
                      [nh.from_array(np.ones((3, 3), np.float32), 'w'), nh.from_array(np.ones(3, np.float32), 'b')])
    return oh.make_model(g, opset_imports=[oh.make_opsetid('', 13)], ir_version=8)


HIDDEN = ['Identity', 'Constant', 'Shape', 'Squeeze', 'Unsqueeze', 'Reshape', 'ConstantOfShape', 'Cast', 'Pad', 'Concat', 'Slice', 'Gather']
OPS = {'m0': 'MatMul', 'add': 'Add', 'relu': 'Relu', 'id': 'Identity', 'm1': 'MatMul', 'cat': 'Concat'}
DEFAULT = object()


def calls(history, excl, hidden=DEFAULT, order=range(6)):
    """a profiling call on a model, after earlier calls on other loads of it: the rows and totals depend on that call's exclusions only"""
    def fn(v):
        n = v.int('batch', 1, 99) if v.native else v.int('batch', 1)
        kinds = [('x', v.values('x', [n, 3], np.float32))]
        hid = set(HIDDEN if hidden is DEFAULT else hidden or ()) | set(excl or ())
        cov = [k for k, o in OPS.items() if o not in hid]
        macs = {'m0': 9 * n, 'add': 3 * n, 'relu': 3 * n, 'id': 0, 'm1': 9 * n, 'cat': 0}
        params = {'m0': 9, 'add': 3, 'm1': 9}
        io = {'m0': 3 * n, 'add': 3 * n, 'relu': 3 * n, 'id': 3 * n, 'm1': 3 * n, 'cat': 6 * n}

        def run():
            import contextlib, csv, io as io_, os, tempfile
            import onnx_tool
            with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io_.StringIO()):
                p = os.path.join(d, 't.csv')
                for e, h in history:
                    onnx_tool.model_profile(shared_model(order), dict(kinds), save_profile=p, **({} if e is None else {'exclude_ops': e}), **({} if h is DEFAULT else {'hidden_ops': h}))
                onnx_tool.model_profile(shared_model(order), dict(kinds), save_profile=p, **({} if excl is None else {'exclude_ops': excl}), **({} if hidden is DEFAULT else {'hidden_ops': hidden}))
                with open(p) as f:
                    rows = list(csv.reader(f))
            col = {h: k for k, h in enumerate(rows[0])}
            body = {r[0]: r for r in rows[1:] if r[0] in OPS}
            tot = [r for r in rows[1:] if r[0] == 'Total']
            ded = [r for r in rows[1:] if r[0] == 'Dedup_Params']
            r = {'rows': sorted(x[0] for x in rows[1:] if x not in tot and x not in ded), 'totals': len(tot), 'default list': sorted(onnx_tool.NoMacsOps)}
            for k, b in body.items():
                r[k] = [b[1] == OPS[k], amount(v, b[col['Forward_MACs']], macs[k]), amount(v, b[col['Params']], params.get(k, 0)), amount(v, b[col['Memory']], 4 * (io[k] + params.get(k, 0)))]
            c = [k for k in cov if k in OPS]
            r['total'] = [amount(v, tot[0][col['Forward_MACs']], sum([macs[k] for k in c] + [0])), amount(v, tot[0][col['Params']], sum([params.get(k, 0) for k in c] + [0])),
                          amount(v, tot[0][col['Memory']], sum([4 * (io[k] + params.get(k, 0)) for k in c] + [0]))]
            r['deduplicated'] = amount(v, ded[0][col['Params']], 12) if ded else sum(params.get(k, 0) for k in c) == 12
            return r
        exp = {'rows': sorted(cov), 'totals': 1, 'default list': sorted(HIDDEN), 'total': [True] * 3, 'deduplicated': True, **{k: [True] * 4 for k in cov}}
        return Case(run, exp, False, {'history': history, 'excluded': excl, 'hidden': 'default' if hidden is DEFAULT else hidden})
    return fn


def entries(tier):
    L = 'that model, any batch extent'
    for k, (h, e, hid) in enumerate([([], None, DEFAULT), ([], ['Relu'], DEFAULT), ([], ['MatMul', 'Add'], DEFAULT), ([], None, None), ([], ['Add'], None), ([], None, ['Relu']), ([], ['MatMul', 'Relu', 'Add'], DEFAULT),
                                     ([(['Relu'], DEFAULT)], None, DEFAULT), ([(['Add'], DEFAULT), (['MatMul'], DEFAULT)], ['Relu'], DEFAULT), ([(['Add'], None), (None, ['Relu'])], None, DEFAULT),
                                     ([(['MatMul'], DEFAULT)], ['Add'], None)]):
        yield Entry('call/excluding %s, hidden %s/after %s' % (e, 'default' if hid is DEFAULT else hid, [(a, 'default' if b is DEFAULT else b) for a, b in h]), ['C07'], calls(h, e, hid), L)
    yield Entry('call/file in another order', ['C07'], calls([], ['Relu'], order=[5, 3, 1, 0, 4, 2]), L)
    B = 'every wiring of graphs of that size, any figures and extents'
    for k in (1, 2, 3, 4):
        yield Entry('totals/one more node/%d operands' % k, ['C07'], step(k), 'any number of nodes of up to 4 operands')
    sizes = {'2 nodes': dict(slots=[2, 2], consts=2, ops=['A', 'B']), '3 nodes': dict(slots=[1, 2, 2], consts=2, free_outputs=False, ops=['A', 'B', 'A'])}
    for s, size in sizes.items():
        for e in (None, [], ['A'], ['B'], ['A', 'B'], ['C']):
            yield Entry('profile/%s/excluded %s' % (s, e), ['C07'], whole(size, e), B)
        for h in (([],), (['A'],), (['B'], ['A', 'B'])):
            for e in (None, ['B']):
                yield Entry('profile/%s/excluded %s/after calls excluding %s' % (s, e, list(h)), ['C07'], whole(size, e, history=h), B)
    for dt in ('float16', 'int8', 'int64'):
        yield Entry('profile/2 nodes/%s' % dt, ['C07'], whole(sizes['2 nodes'], None, dt), B)
    for s, size in sizes.items():
        for e in (None, ['A'], ['B', 'C'], ['A', 'B']):
            for m in ('MACs', 'FLOPs'):
                if s == '2 nodes' or m == 'MACs':
                    yield Entry('table/%s/excluded %s/%s' % (s, e, m), ['C07'], table(size, e, m), B)
