"""Shape engines: the relation fitted on three samples is exact on the whole range when it is exact on the samples, integer-affine extents are
always fitted exactly, and the engine regressed from a graph gives every affine extent at every assignment in range."""
import itertools
import numpy as np
import onnx
from onnx import helper as oh
from pyvc.contract import Entry, Case
from spec.sym import And, Or, Not, ite


def rng(v, k='', one=False):
    """a variable range and its three calibration points"""
    lo = v.int('min' + k, 1, 12) if v.native else v.int('min' + k, 1)
    hi = v.int('max' + k, lo + (0 if not one else 1), lo + 40) if v.native else v.int('max' + k)
    if not v.native:
        v.require(hi >= lo + 1 if one else hi >= lo)
    return lo, hi, [lo, (lo + hi) // 2, hi]


def inside(v, name, lo, hi):
    if v.native:
        return v.int(name, lo, hi)
    x = v.int(name)
    v.require(And(x >= lo, x <= hi))
    return x


def fit_direct(k):
    """extent k*x+d of the variable x: fitted without error, exact on the range"""
    def fn(v):
        from onnx_tool.graph import ValueExpr
        lo, hi, pts = rng(v, one=True)
        d = v.int('offset')
        x = inside(v, 'x', lo, hi)
        kk = v.int('slope', 1, 9) if k is None and v.native else v.int('slope', 1) if k is None else k

        def run():
            dst = [kk * p + d for p in pts]
            e = ValueExpr(pts, dst)
            return [e.error(pts, dst), e(x)]
        return Case(run, [0, kk * x + d], False, {'slope': kk, 'offset': d, 'range': [lo, hi], 'x': x})
    return fn


def fit_derived(p, q):
    """extent q*x+d fitted on an extent p*x+b: if the samples are met, so is every value in the range"""
    def fn(v):
        from onnx_tool.graph import ValueExpr
        lo, hi, pts = rng(v, one=True)
        b, d = v.int('source_offset'), v.int('offset')
        x = inside(v, 'x', lo, hi)

        def run():
            src, dst = [p * t + b for t in pts], [q * t + d for t in pts]
            e = ValueExpr(src, dst)
            return Or(e.error(src, dst) != 0, e(p * x + b) == q * x + d)
        return Case(run, True, False, {'slopes': [p, q], 'offsets': [b, d], 'range': [lo, hi], 'x': x})
    return fn


def engine(desc, exprs):
    """desc: per tensor a list of extents (int or variable name); exprs: derived variable -> (source, slope)"""
    def fn(v):
        from onnx_tool.graph import ShapeEngine, ValueExpr
        names = sorted({e for d in desc.values() for e in d if isinstance(e, str) and e not in exprs} | {s for s, _ in exprs.values() if s not in exprs})
        first = {n: v.int('first_' + n, 1, 30) if v.native else v.int('first_' + n, 1) for n in names}
        second = {n: v.int('second_' + n, 1, 30) if v.native else v.int('second_' + n, 1) for n in names}
        off = {n: v.int('offset_' + n) for n in exprs}
        ins = {t: d for t, d in desc.items() if not any(e in exprs for e in d)}

        def at(vals):
            vals = dict(vals)
            for n, (s, k) in exprs.items():
                vals[n] = k * vals[s] + off[n]
            return [[e if isinstance(e, int) else vals[e] for e in d] for d in desc.values()]
        mixed = dict(first)
        mixed[names[0]] = second[names[0]]

        def run():
            e = ShapeEngine({t: list(d) for t, d in ins.items()})
            for t, d in desc.items():
                if t not in ins:
                    e.add_tensor_desc(t, ['' if x in exprs else x for x in d])
            for n, (s, k) in exprs.items():
                e.add_expr(n, s, ValueExpr([2, 3, 5], [k * z + off[n] for z in (2, 3, 5)]))
            for t, d in desc.items():
                for a, x in enumerate(d):
                    if x in exprs:
                        e.update_tensor_desc(t, a, x)
            out = []
            for vals in (first, mixed, second):
                for n in names:
                    if vals is not mixed or n == names[0]:
                        e.update_variable(n, vals[n])
                e.update_variables()
                out.append([list(e.get_tensorshape(t)) for t in desc])
            out.append([e.get_tensor_desc('none') is None] + [list(x.shape) for x in e.generate_input().values()])
            return out
        return Case(run, [at(first), at(mixed), at(second), [True] + [s for t, s in zip(desc, at(second)) if t in ins]], False, {'description': desc, 'derived': exprs, 'values': [first, second]})
    return fn


ENGINES = [({'x': ['N', 3]}, {}), ({'x': ['N', 'M'], 'y': ['M', 4]}, {}), ({'x': ['N', 'M'], 'y': ['1', 4], 't': ['1', 'M']}, {'1': ('N', 2)}),
           ({'x': ['N', 'M', 2], 't': ['1', '2'], 'u': ['3', 'N']}, {'1': ('N', 3), '2': ('M', 1), '3': ('1', 2)})]


def regress(ins, tens, fixed=None):
    """ins: input -> extents (int or variable); tens: tensor -> (inputs of its node, extents (int, or variable and slope))"""
    def fn(v):
        from onnx_tool.graph import Graph
        from onnx_tool.utils import ModelConfig
        names = sorted({e for d in ins.values() for e in d if isinstance(e, str)})
        lim = {n: rng(v, '_' + n) if fixed is None else fixed for n in names}
        x = {n: inside(v, 'x_' + n, lim[n][0], lim[n][1]) for n in names}
        off = {}
        for t, (_, d) in tens.items():
            for a, e in enumerate(d):
                if isinstance(e, tuple):
                    off[t, a] = v.int('offset_%s%d' % (t, a))
        nodes = [oh.make_node('Custom', list(i), [t], 'n' + t) for t, (i, _) in tens.items()]
        gp = oh.make_graph(nodes, 'g', [oh.make_tensor_value_info(i, 1, None) for i in ins], [oh.make_tensor_value_info(t, 1, None) for t in tens])

        def truth(vals):
            return {t: [e[1] * vals[e[0]] + off[t, a] if isinstance(e, tuple) else e for a, e in enumerate(d)] for t, (_, d) in tens.items()}

        def run():
            g = Graph(gp, ModelConfig({}))

            def infer(inputs):
                # contract of shape inference: every tensor gets its true shape
                vals = {}
                for i, d in ins.items():
                    for e, n in zip(d, inputs[i].shape):
                        if isinstance(e, str):
                            vals[e] = n
                    g.tensormap[i].update_shape(list(inputs[i].shape))
                for t, s in truth(vals).items():
                    g.tensormap[t].update_shape(s)
            g.shape_infer = infer
            e = g.shape_regress({i: list(d) for i, d in ins.items()}, {n: [lim[n][0], lim[n][1]] for n in names})
            for n in names:
                e.update_variable(n, x[n])
            e.update_variables()
            return {t: list(e.get_tensorshape(t)) for t in list(ins) + list(tens)}
        exp = {i: [x[e] if isinstance(e, str) else e for e in d] for i, d in ins.items()}
        exp.update(truth(x))
        return Case(run, exp, False, {'inputs': ins, 'tensors': tens, 'ranges': {n: lim[n][:2] for n in names}, 'offsets': {'%s%d' % k: o for k, o in off.items()}, 'at': x})
    return fn


SLOPES = [1, 2, 3, -1, -2]


def entries(tier):
    B = 'slopes enumerated, any offsets and ranges'
    yield Entry('fit/any slope', ['C14'], fit_direct(None))
    for k in (1, 2, 3, 4, 7, 16, 64, -1, -2, -3):
        yield Entry('fit/slope %d' % k, ['C14'], fit_direct(k), B)
    ps = (1, 2, 3, 4, 6, -1, -2) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 32, -1, -2, -3, -4)
    for p, q in itertools.product(ps, ps):
        yield Entry('fit on a derived extent/source slope %d/slope %d' % (p, q), ['C14'], fit_derived(p, q), B)
    for k, (d, e) in enumerate(ENGINES):
        yield Entry('engine/description %d' % k, ['C14'], engine(d, e), 'fixed descriptions, any values')
    N, M = 'N', 'M'
    for s in SLOPES:
        yield Entry('regress/one extent/slope %d' % s, ['C14'], regress({'x': [N, 4]}, {'t': (['x'], [(N, s), 5])}), B)
    for s, t in itertools.product(SLOPES, SLOPES):
        yield Entry('regress/chain/slopes %d %d' % (s, t), ['C14'], regress({'x': [N, 4]}, {'t': (['x'], [(N, s)]), 'u': (['t'], [3, (N, t)])}), B)
        yield Entry('regress/join/slopes %d %d' % (s, t), ['C14'], regress({'x': [N]}, {'t': (['x'], [(N, s)]), 'u': (['t', 'x'], [(N, t)])}), B)
    for s, t in itertools.product(SLOPES[:3] + [-1], SLOPES[:3] + [-1]):
        yield Entry('regress/two variables/slopes %d %d' % (s, t), ['C14'], regress({'x': [N, M]}, {'t': (['x'], [(M, s), (N, t)])}), B)
    for s, t, r in itertools.product((1, 2, 3), (2, 3), (1, 2, -1)):
        for lo, hi in ((1, 8), (3, 100)) if tier == 'quick' else ((1, 2), (1, 8), (3, 100), (16, 4096)):
            yield Entry('regress/three extents/slopes %d %d %d/range %d..%d' % (s, t, r, lo, hi), ['C14'],
                        regress({'x': [N]}, {'t': (['x'], [(N, s)]), 'u': (['x'], [(N, t)]), 'w': (['t', 'u'], [(N, r)])}, (lo, hi)), B + ', ranges enumerated')
