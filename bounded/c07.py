"""Profile totals, shares, exclusions, deduplicated parameters: recomputed from the model file with the ONNX reference values."""
import csv, io, os
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh
from . import cli, models, opgen as og
from .opgen import R, pick
from .c06 import expected
from .core import quiet, short


def attr_map(n):
    out = {}
    for a in n.attribute:
        v = oh.get_attribute_value(a)
        out[a.name] = v.decode() if isinstance(v, bytes) else v
    return out


def cnt(a):
    return int(a.size) if a.ndim else 0


def oracle(m, vals, g):
    """name -> (op, macs, params, memory) for the nodes the tool keeps"""
    ini = {i.name: nh.to_array(i) for i in m.graph.initializer}
    allv = {**ini, **vals}
    rows = {}
    for n in m.graph.node:
        if n.name not in g.nodemap:
            continue
        ins = [allv[i] for i in n.input if i]
        outs = [vals[o] for o in n.output]
        macs = expected(n.op_type, attr_map(n), [list(a.shape) for a in ins], [list(o.shape) for o in outs])
        params = sum(cnt(ini[i]) for i in n.input if i in ini)
        io_ = sum(cnt(o) for o in outs)
        static = params
        if n.op_type == 'Gather':
            static = cnt(ins[1]) * ins[0].shape[-1]
        mem = io_ * outs[0].dtype.itemsize + static * (ins[0].dtype.itemsize if ins else 4)
        rows[n.name] = (n.op_type, macs, params, mem)
    return rows


def compare(ctx, tag, m, vals, g, excl, rep):
    rows = oracle(m, vals, g)
    cov = {k: r for k, r in rows.items() if r[0] not in (excl or ())}
    key = 'totals/%s' % tag
    for k, (op, macs, params, mem) in cov.items():
        nd = g.nodemap[k]
        for what, got, want in (('macs', nd.macs, macs), ('params', nd.params, params), ('memory', nd.memory, mem)):
            if want is not None and got != want:
                ctx.fail('%s/node-%s/%s' % (key, what, op), 'node %s (%s): reported %s %s, recomputed %s' % (k, op, what, got, want), rep)
    for what, got, col in (('macs', g.macs[0], 1), ('params', g.params, 2), ('memory', g.memory, 3)):
        want = sum(getattr(g.nodemap[k], what) for k in cov)
        if got != want:
            ctx.fail('%s/total-%s' % (key, what), 'total %s %s is not the sum %s over the covered nodes %s (excluded %s)' % (what, got, want, sorted(cov), excl), rep)
    used = {i for n in m.graph.node for i in n.input}
    dd = sum(cnt(nh.to_array(i)) for i in m.graph.initializer if i.name in used)
    if g.dedup_params != dd:
        ctx.fail('%s/dedup' % key, 'deduplicated parameters %s, recomputed %s' % (g.dedup_params, dd), rep)
    return cov


def check_csv(ctx, g, excl, cov, rep, metric='MACs'):
    p = os.path.join(ctx.tmp, 'p.csv')
    with quiet():
        g.print_node_map(p, metric=metric, exclude_ops=excl)
    with open(p) as f:
        rows = list(csv.reader(f))
    head, rows = rows[0], rows[1:]
    col = {h: i for i, h in enumerate(head)}
    fac = 2 if metric == 'FLOPs' else 1
    body = [r for r in rows if r[0] not in ('Total', 'Dedup_Params')]
    tot = [r for r in rows if r[0] == 'Total']
    if sorted(r[0] for r in body) != sorted(cov):
        ctx.fail('csv/rows', 'table rows %s, covered nodes %s (excluded %s)' % (sorted(r[0] for r in body), sorted(cov), excl), rep)
        return
    mc = col['Forward_' + metric]
    for r in body:
        nd = g.nodemap[r[0]]
        if r[1] != nd.op_type:
            ctx.fail('csv/type', 'row %s shows type %s' % (r, nd.op_type), rep)
        for c, pc, v, t in ((mc, col['FPercent'], nd.macs * fac, g.macs[0] * fac), (col['Memory'], col['MPercent'], nd.memory, g.memory),
                            (col['Params'], col['PPercent'], nd.params, g.params)):
            if r[c] != str(int(v)):
                ctx.fail('csv/amount', 'row %s column %s shows %s, node has %s' % (r[0], head[c], r[c], v), rep)
            share = 0 if t == 0 else v / t
            if abs(float(r[pc].rstrip('%')) / 100 - share) > 6e-5:
                ctx.fail('csv/percent', 'row %s column %s shows %s, share is %.6f' % (r[0], head[pc], r[pc], share), rep)
    if len(tot) != 1 or [tot[0][mc], tot[0][col['Memory']], tot[0][col['Params']]] != [str(int(g.macs[0] * fac)), str(int(g.memory)), str(int(g.params))]:
        ctx.fail('csv/total', 'total row %s, totals are %s %s %s' % (tot, g.macs[0] * fac, g.memory, g.params), rep)
    ded = [r for r in rows if r[0] == 'Dedup_Params']
    if bool(ded) != (g.dedup_params != g.params) or (ded and ded[0][col['Params']] != str(int(g.dedup_params))):
        ctx.fail('csv/dedup', 'deduplicated row %s, figure is %s of %s' % (ded, g.dedup_params, g.params), rep)


def big_model(rng):
    """a chain of matrix products with very large declared extents (no data)"""
    n = R(rng, 1, 6)
    d = [R(rng, 1, 60) for _ in range(n + 1)]
    b = 10 ** R(rng, 3, 15) + R(rng, 0, 99)
    nodes, ini = [], []
    for i in range(n):
        nodes.append(oh.make_node('MatMul', ['x%d' % i, 'w%d' % i], ['x%d' % (i + 1)], name='m%d' % i))
        ini.append(nh.from_array(np.zeros((d[i], d[i + 1]), np.float32), 'w%d' % i))
    g = oh.make_graph(nodes, 'g', [oh.make_tensor_value_info('x0', 1, [b, d[0]])], [oh.make_tensor_value_info('x%d' % n, 1, None)], ini)
    return oh.make_model(g, opset_imports=[oh.make_opsetid('', 13)], ir_version=8), b, d


def run(ctx):
    rng = ctx.rng
    import onnx_tool
    with ctx.section('totals'):
        for i in range(ctx.n(700, 5000)):
            if ctx.timeup():
                return
            m, feeds, outs, vals = models.model(rng)
            ops = sorted({n.op_type for n in m.graph.node})
            ctx.eval(('totals', [n.op_type for n in m.graph.node], [v.shape for v in feeds.values()]), ops)
            rep = {'model': models.text(m)}
            try:
                g = models.load(m)
                with quiet():
                    g.shape_infer()
                    g.profile()
            except Exception as e:
                ctx.fail('totals/error', 'profiling the model of %s raised %r' % (ops, e), rep)
                continue
            cov = compare(ctx, 'all', m, vals, g, None, rep)
            check_csv(ctx, g, None, cov, rep, pick(rng, ['MACs', 'FLOPs']))
            first = (g.macs[0], g.params, g.memory)
            excl = pick(rng, [set, list, tuple])(str(o) for o in ops if rng.random() < .4)
            with quiet():
                g.profile(exclude_ops=excl)
            cov = compare(ctx, 'excluded', m, vals, g, excl, {**rep, 'exclude': list(excl)})
            check_csv(ctx, g, excl, cov, {**rep, 'exclude': list(excl)}, pick(rng, ['MACs', 'FLOPs']))
            with quiet():
                g.profile()
            if (g.macs[0], g.params, g.memory) != first:
                ctx.fail('totals/repeat', 'profiling after an excluded run gives %s, the first run gave %s' % ((g.macs[0], g.params, g.memory), first), rep)
    with ctx.section('large totals'):
        for i in range(ctx.n(20, 200)):
            m, b, d = big_model(rng)
            ctx.eval(('big', b, d))
            g = models.load(m)
            with quiet():
                g.shape_infer()
                g.profile()
            per = [b * d[k] * d[k + 1] for k in range(len(d) - 1)]
            if g.macs[0] != sum(per) or [g.nodemap['m%d' % k].macs for k in range(len(per))] != per:
                ctx.fail('big/macs', 'total %r for batch %d widths %s, exact total is %d' % (g.macs[0], b, d, sum(per)), [b, d])
            check_csv(ctx, g, None, {'m%d' % k: 1 for k in range(len(per))}, [b, d])
    with ctx.section('command line'):
        cli.profile(ctx, ctx.n(40, 400))
    with ctx.section('calls'):
        for i in range(ctx.n(40, 300)):
            m, feeds, outs, vals = models.model(rng)
            ops = sorted({n.op_type for n in m.graph.node})
            ctx.eval(('call', [n.op_type for n in m.graph.node], [v.shape for v in feeds.values()]))
            excl = [o for o in ops if rng.random() < .5]
            p0, p1 = os.path.join(ctx.tmp, 'a.csv'), os.path.join(ctx.tmp, 'b.csv')
            rep = {'model': models.text(m), 'exclude': excl}
            mk = lambda: onnx.ModelProto.FromString(m.SerializeToString())
            default = set(onnx_tool.NoMacsOps)
            try:
                with quiet():
                    onnx_tool.model_profile(mk(), save_profile=p0)
                    before = open(p0).read()
                    onnx_tool.model_profile(mk(), exclude_ops=list(excl), save_profile=p1)
                    ex = open(p1).read()
                    onnx_tool.model_profile(mk(), save_profile=p0)
                    after = open(p0).read()
                    onnx_tool.model_profile(mk(), exclude_ops=list(excl), hidden_ops=None, save_profile=p1)
                    ex2 = open(p1).read()
            except Exception as e:
                ctx.fail('calls/error', 'profiling calls raised %r' % e, rep)
                continue
            if sorted(before.splitlines()) != sorted(after.splitlines()) or set(onnx_tool.NoMacsOps) != default:
                ctx.fail('calls/leak', 'a call that excludes %s changes the result of the next call' % excl, rep)
            g = models.load(m)
            for what, txt, hid in (('default', before, default), ('excluded', ex, default | set(excl)), ('only', ex2, set(excl))):
                got = sorted(r.split(',')[0] for r in txt.splitlines()[1:] if r.split(',')[0] not in ('Total', 'Dedup_Params'))
                want = sorted(k for k, n in g.nodemap.items() if n.op_type not in hid)
                if got != want:
                    ctx.fail('calls/%s' % what, 'rows %s, expected %s' % (got, want), rep)
