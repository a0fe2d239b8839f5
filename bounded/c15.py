"""Pattern matches against the description, serial chains, batch-norm folding by evaluation, boundaries of fused matches."""
import itertools
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh
from . import models
from .opgen import R, pick
from .core import quiet, short
from .c08 import gload, gtext
from .c09 import snap, boundary, same


def attr_of(node, name):
    return getattr(node, name) if hasattr(node, name) else None


CMP = {'<=': lambda a, b: a <= b, '<': lambda a, b: a < b, '>=': lambda a, b: a >= b, '>': lambda a, b: a > b, '==': lambda a, b: a == b}


def op_ok(desc, node):
    op = desc['op']
    if not (node.op_type in op if isinstance(op, list) else op == 'Any' or node.op_type == op):
        return False
    for at in desc['attrs']:
        x = attr_of(node, at[0])
        if x is None:
            return False
        if len(at) == 4:
            if at[2] >= len(x):
                return False
            x = x[at[2]]
        if not CMP[at[1]](x, at[-1]):
            return False
    return True


def linked(p, po, c, ci):
    """the link from output port po of node p to input port ci of node c exists (-1: any port)"""
    outs = p.output if po == -1 else p.output[po:po + 1]
    ins = c.input if ci == -1 else c.input[ci:ci + 1]
    return any(o == i and o for o in outs for i in ins)


def wrong(descs, names, g):
    """'' or what is wrong with a reported match"""
    if len(names) != len(descs) or len(set(names)) != len(names) or any(n not in g.nodemap for n in names):
        return 'is no group of %d distinct nodes' % len(descs)
    at = {d['name']: g.nodemap[n] for d, n in zip(descs, names)}
    for d in descs:
        n = at[d['name']]
        if not op_ok(d, n):
            return 'node %s (%s) does not satisfy description %s' % (n.name, n.op_type, d['name'])
        for i, k, o in d['inport']:
            if not linked(at[k], o, n, i):
                return 'input %d of %s does not come from output %d of %s' % (i, n.name, o, at[k].name)
        for o, k, i in d['outport']:
            if not linked(n, o, at[k], i):
                return 'output %d of %s does not feed input %d of %s' % (o, n.name, i, at[k].name)
    return ''


def report(ctx, tag, g, descs, inplace, rep):
    from onnx_tool.fusion import FusionPattern
    try:
        with quiet():
            got = FusionPattern(descs, inplace).search_pattern(g)
    except Exception as e:
        ctx.fail(tag + '/error', '%r' % e, rep)
        return None
    for m in got:
        w = wrong(descs, m, g)
        if w:
            ctx.fail(tag + '/match', 'reported match %s %s' % (m, w), rep)
            return None
    used = [n for m in got for n in m]
    if len(used) != len(set(used)):
        ctx.fail(tag + '/overlap', 'matches %s share nodes' % got, rep)
        return None
    return got


def chain_of(g, ops, free):
    """a chain of distinct free nodes of these operators, each reading an output of the one before"""
    def go(path):
        if len(path) == len(ops):
            return path
        for o in g.nodemap[path[-1]].output:
            for n in g.consumedby.get(o, []):
                if o and n in free and n not in path and g.nodemap[n].op_type == ops[len(path)]:
                    r = go(path + [n])
                    if r:
                        return r
        return None
    for n in g.nodemap:
        if n in free and g.nodemap[n].op_type == ops[0]:
            r = go([n])
            if r:
                return r
    return None


def few_ops(rng, gp):
    for nd in gp.node:
        nd.op_type = pick(rng, ['Relu', 'Add', 'Conv', 'LeakyRelu'])
        if nd.op_type == 'Conv':
            del nd.attribute[:]
            if rng.random() < .8:
                nd.attribute.append(oh.make_attribute('kernel_shape', [R(rng, 1, 9) for _ in range(R(rng, 1, 2))]))
        if nd.op_type == 'Add' and len(nd.input) == 1:
            nd.input.append(nd.input[0])
    return gp


def desc_of(rng, g):
    """a description taken from a connected group of nodes, sometimes loosened or changed"""
    from onnx_tool.fusion import create_descs_from_nodenames
    from .c08 import chains
    names = chains(rng, g)
    with quiet():
        ds = create_descs_from_nodenames(g, list(names))
    ds = [dict(d, inport=[list(x) for x in d['inport']], outport=[list(x) for x in d['outport']]) for d in ds]
    u = rng.random()
    for d in ds:
        if rng.random() < .2:
            d['op'] = pick(rng, ['Any', [d['op'], 'Relu']])
        if d['op'] == 'Conv' and rng.random() < .4:
            d['attrs'] = [['kernel_shape', pick(rng, list(CMP)), R(rng, 0, 1), R(rng, 1, 7)]]
    if u < .2:
        for d in ds:
            for x in d['inport'] + d['outport']:
                if rng.random() < .3:
                    x[pick(rng, [0, 2])] = -1
    elif u < .3:
        d = pick(rng, ds)
        d['op'] = pick(rng, ['Relu', 'Add', 'Conv'])
    return names, ds, u >= .3


def conv_bn(rng):
    """model with convolutions followed by batch normalisations, sometimes shared or observed elsewhere"""
    nodes, ini, k = [], {}, [0]

    def const(a):
        k[0] += 1
        ini['c%d' % k[0]] = a
        return 'c%d' % k[0]
    dt = np.float64 if rng.random() < .15 else np.float32

    def rnd(*s):
        return rng.normal(size=s).astype(dt)
    c, t = R(rng, 1, 3), 'x'
    shared = {}
    outs = []
    c0 = c
    nsp = 2 if rng.random() < .85 else pick(rng, [1, 3])
    for j in range(R(rng, 1, 3)):
        f = c if rng.random() < .4 else R(rng, 1, 4)
        ks = [R(rng, 1, 3) for _ in range(nsp)]
        grp = c if f % c == 0 and rng.random() < .3 else 1
        key = (f, c // grp, *ks)
        if key in shared and rng.random() < .6:
            w = shared[key]
        else:
            w = shared[key] = const(rnd(*key))
        ins = [t, w] + ([const(rnd(f))] if rng.random() < .5 else [])
        nodes.append(oh.make_node('Conv', ins, ['cv%d' % j], 'conv%d' % j, kernel_shape=ks, pads=[1] * 2 * nsp, group=grp))
        stat = [const(rnd(f)), const(rnd(f)), const(rnd(f)), const(np.abs(rnd(f)) + dt(.1))]
        if rng.random() < .1:
            stat[0] = stat[1]
        at = {} if rng.random() < .3 else {'epsilon': float(pick(rng, [1e-3, .1, 1.]))}
        train = rng.random() < .05
        if train:
            at['training_mode'] = 1
        nodes.append(oh.make_node('BatchNormalization', ['cv%d' % j] + stat, ['bn%d' % j] + (['mo%d' % j, 'vo%d' % j] if train else []), 'bn_%d' % j, **at))
        t, c = 'bn%d' % j, f
        if rng.random() < .2:
            nodes.append(oh.make_node('Relu', ['cv%d' % j], ['side%d' % j], 'relu%d' % j))
            outs.append('side%d' % j)
        if rng.random() < .15:
            outs.append('cv%d' % j)
        if rng.random() < .15:
            nodes.append(oh.make_node('Relu', [t], ['act%d' % j], 'act_%d' % j))
            t = 'act%d' % j
        if rng.random() < .15 and t not in outs:
            outs.append(t)
    if t not in outs:
        outs.append(t)
    xs = (1, c0) + (5,) * nsp
    et = oh.np_dtype_to_tensor_dtype(np.dtype(dt))
    gp = oh.make_graph(nodes, 'g', [oh.make_tensor_value_info('x', et, list(xs))], [oh.make_tensor_value_info(o, et, None) for o in outs], [nh.from_array(a, n) for n, a in ini.items()])
    m = oh.make_model(gp, opset_imports=[oh.make_opsetid('', 15)])
    m.ir_version = 8
    return m, {'x': rnd(*xs)}, outs


def run(ctx):
    rng = ctx.rng
    from onnx_tool import fusion as F
    with ctx.section('matches'):
        for i in range(ctx.n(800, 12000)):
            if ctx.timeup():
                break
            gp = few_ops(rng, models.dag(rng))
            g = gload(gp)
            names, ds, whole = desc_of(rng, g)
            inplace = bool(R(rng, 0, 1)) and rng.random() < .5
            rep = {'nodes': gtext(gp), 'pattern': ds, 'inplace': inplace}
            ctx.eval(('m', str(rep)), rep)
            report(ctx, 'matches', g, ds, inplace, rep)
            for pat, nm in ((F.Fused_Element, 'activation'), (F.Conv_Res, 'residual'), (F.ConvBN, 'convbn')):
                report(ctx, 'matches-' + nm, g, pat, inplace, dict(rep, pattern=nm))
    with ctx.section('serial'):
        for i in range(ctx.n(800, 12000)):
            if ctx.timeup():
                break
            gp = few_ops(rng, models.dag(rng))
            g = gload(gp)
            ops = [pick(rng, ['Relu', 'Add', 'Conv', 'LeakyRelu']) for _ in range(R(rng, 1, 4))]
            if rng.random() < .5:
                from .c08 import chains
                ops = [g.nodemap[n].op_type for n in chains(rng, g)]
            rep = {'nodes': gtext(gp), 'chain': ops}
            ctx.eval(('s', str(rep)), rep)
            got = report(ctx, 'serial', g, F.createSerialOpChain(ops), False, rep)
            if got is None:
                continue
            free = set(g.nodemap) - {n for m in got for n in m}
            c = chain_of(g, ops, free)
            if c:
                ctx.fail('serial/missed', 'chain %s is not found, reported %s' % (c, got), rep)
    with ctx.section('fused'):
        for i in range(ctx.n(250, 4000)):
            if ctx.timeup():
                break
            gp = few_ops(rng, models.dag(rng))
            g = gload(gp)
            pat = pick(rng, [F.Fused_Element, F.Conv_Res, F.createSerialOpChain([pick(rng, ['Relu', 'Add', 'Conv']) for _ in range(2)])])
            rep = {'nodes': gtext(gp), 'pattern': [d['op'] for d in pat], 'outputs': list(g.output)}
            got = report(ctx, 'fused', g, pat, True, rep)
            if not got:
                continue
            ctx.eval(('f', str(rep)), rep)
            for names in got:
                nodes, outs, gin = snap(g), list(g.output), list(g.input)
                ins, os_ = boundary(nodes, names, outs)
                with quiet():
                    g.fuse_postop_node_names(list(names), True)
                d = g.nodemap.get(names[0])
                if d is None or sorted(d.input) != sorted(ins) or sorted(d.output) != sorted(os_):
                    ctx.fail('fused/boundary', 'fused node %s, boundary %s -> %s' % (d and (d.input, d.output), sorted(ins), sorted(os_)), rep)
                    break
                rest = {n: x for n, x in snap(g).items() if n != names[0]}
                if rest != {n: x for n, x in nodes.items() if n not in names} or set(g.output) != set(outs) or g.input != gin:
                    ctx.fail('fused/others', 'other nodes or graph inputs and outputs changed', rep)
                    break
    with ctx.section('batch norm'):
        from onnx.reference import ReferenceEvaluator
        for i in range(ctx.n(120, 2000)):
            if ctx.timeup():
                break
            m, feeds, outs = conv_bn(rng)
            rep = {'model': models.text(m)}
            ctx.eval(('b', rep['model']), rep)
            with quiet():
                ref = models.values(m, feeds, outs)
            try:
                with quiet():
                    g = models.load(m)
                    F.ConvBNFusion(g)
                    gp = g.make_graph_onnx(g.nodemap.keys(), 'g', g.input, g.output)
                    mm = oh.make_model(gp, opset_imports=list(m.opset_import))
                    mm.ir_version = m.ir_version
                    mm = onnx.ModelProto.FromString(mm.SerializeToString())
                    got = dict(zip([o.name for o in mm.graph.output], ReferenceEvaluator(mm).run(None, feeds)))
            except Exception as e:
                import traceback
                ctx.fail('batchnorm/error', '%r %s' % (e, traceback.format_exc()[-400:]), rep)
                continue
            if set(got) != set(outs):
                ctx.fail('batchnorm/outputs', 'outputs %s, model has %s' % (sorted(got), sorted(outs)), rep)
                continue
            for o in outs:
                a, b = got[o], ref[o]
                if a.shape != b.shape or a.dtype != b.dtype or not np.allclose(a, b, rtol=1e-3, atol=1e-4):
                    ctx.fail('batchnorm/values', 'output %s differs by up to %s' % (o, np.abs(a - b).max() if a.shape == b.shape else (a.shape, b.shape)), rep)
                    break
            for d in g.nodemap.values():
                if d.op_type == 'Conv' and len({np.dtype(g.tensormap[x].dtype) for x in d.input[1:]}) > 1:
                    ctx.fail('batchnorm/types', 'convolution %s reads element types %s' % (d.name, [str(np.dtype(g.tensormap[x].dtype)) for x in d.input[1:]]), rep)
            # what is left: a convolution read by one normalisation only, with its own weights, is folded
            left = [n for n, d in g.nodemap.items() if d.op_type == 'BatchNormalization']
            for n in left:
                d = g.nodemap[n]
                p = g.producedby.get(d.input[0], [])
                c = g.nodemap[p[0]] if p else None
                if c is not None and c.op_type == 'Conv' and len(c.attr.get('kernel_shape', [])) == 2 and len(g.consumedby[c.output[0]]) == 1 and c.output[0] not in g.output \
                        and len(g.consumedby[c.input[1]]) == 1 and len(d.output) == 1:
                    ctx.fail('batchnorm/missed', 'normalisation %s after convolution %s is left' % (n, c.name), rep)
