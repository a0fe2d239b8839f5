"""Constants, declarations, attributes and whole models through load and save, against onnx itself."""
import os
import shutil
import tempfile
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh, TensorProto as TP
from . import cli, models
from .opgen import R, pick
from .core import quiet, short

TYPES = {TP.FLOAT: np.float32, TP.DOUBLE: np.float64, TP.FLOAT16: np.float16, TP.INT32: np.int32, TP.INT16: np.int16, TP.INT64: np.int64, TP.INT8: np.int8, TP.UINT8: np.uint8,
         TP.UINT16: np.uint16, TP.UINT32: np.uint32, TP.UINT64: np.uint64, TP.BOOL: np.bool_}
FIELD = {TP.FLOAT: 'float_data', TP.DOUBLE: 'double_data', TP.INT64: 'int64_data', TP.UINT32: 'uint64_data', TP.UINT64: 'uint64_data', TP.STRING: 'string_data'}


def shape_of(rng):
    r = R(rng, 0, 4)
    return [0 if rng.random() < .1 else R(rng, 1, 4) for _ in range(r)]


def numbers(rng, shape, dt):
    dt = np.dtype(dt)
    if dt.kind == 'b':
        return rng.integers(0, 2, shape).astype(dt)
    if dt.kind in 'iu':
        i = np.iinfo(dt)
        a = np.asarray(rng.integers(i.min, i.max, shape, dtype=dt, endpoint=True))
        ext = np.array([i.min, i.max, 0, 1], dt)
    else:
        a = np.asarray(rng.normal(size=shape) * 10. ** rng.integers(-6, 4)).astype(dt)
        f = np.finfo(dt)
        ext = np.array([np.nan, np.inf, -np.inf, -0., f.max, f.tiny, f.smallest_subnormal], dt)
    m = rng.random(shape) < .2
    return np.where(m, ext[rng.integers(0, len(ext), shape)], a).astype(dt)


def strings(rng, shape):
    n = int(np.prod(shape)) if shape else 1
    return [bytes(rng.integers(1, 256, R(rng, 0, 5), dtype=np.uint8)) for _ in range(n)]


def tensor(rng, name='w'):
    """(TensorProto, expected array)"""
    t = pick(rng, list(TYPES) + [TP.STRING])
    shape = shape_of(rng)
    p = TP()
    p.name, p.data_type = name, t
    p.dims.extend(shape)
    if t == TP.STRING:
        v = strings(rng, shape)
        p.string_data.extend(v)
        return p, np.array(v, object).reshape(shape)
    a = numbers(rng, shape, TYPES[t])
    if rng.random() < .5:
        p.raw_data = a.tobytes()
    else:
        x = a.reshape(-1)
        if t == TP.FLOAT16:
            x = x.view(np.uint16)
        if t == TP.BOOL:
            x = x.astype(np.int32)
        getattr(p, FIELD.get(t, 'int32_data')).extend(x.tolist())
    return p, a


def equal(a, b):
    """same shape, type and values, bit by bit"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'OSU' or b.dtype.kind in 'OSU':
        def s(x):
            return [e.encode() if isinstance(e, str) else bytes(e) for e in x.reshape(-1).tolist()]
        return s(a) == s(b)
    if a.dtype != b.dtype:
        return False
    nan = np.isnan(a) if a.dtype.kind == 'f' else np.zeros(a.shape, bool)
    if a.dtype.kind == 'f' and not np.array_equal(nan, np.isnan(b)):
        return False
    return np.where(nan, np.zeros((), a.dtype), a).tobytes() == np.where(nan, np.zeros((), b.dtype), b).tobytes()


def constants(ctx):
    from onnx_tool.tensor import Tensor, create_initial_Tensor
    rng = ctx.rng
    for _ in range(ctx.n(1500, 40000)):
        if ctx.timeup():
            return
        p, a = tensor(rng)
        rep = {'type': TP.DataType.Name(p.data_type), 'shape': list(a.shape), 'raw': bool(p.raw_data), 'values': short(a.tolist(), 200)}
        ctx.eval(('t', str(rep)), rep)
        try:
            with quiet():
                t = Tensor(p)
        except Exception as e:
            ctx.fail('constant/load', '%r' % e, rep)
            continue
        ok = equal(t.numpy, a) and list(t.get_shape()) == list(a.shape) and t.name == 'w'
        if not ok or (a.dtype != object and np.dtype(t.dtype) != a.dtype):
            ctx.fail('constant/value', 'loaded %s %s %s' % (t.get_shape(), t.dtype, short(t.numpy)), rep)
            continue
        if a.dtype != object and rng.random() < .3 and a.ndim > 1:
            b = t.numpy.transpose() if rng.random() < .5 else np.repeat(t.numpy, 2, 0)[::2]
            try:
                with quiet():
                    t = create_initial_Tensor('w', b)
            except Exception as e:
                ctx.fail('constant/create', '%r' % e, rep)
                continue
            a = b
        try:
            with quiet():
                q = TP.FromString(t.make_tensor_proto().SerializeToString())
        except Exception as e:
            ctx.fail('constant/save', '%r' % e, rep)
            continue
        if q.name != 'w' or q.data_type != p.data_type or list(q.dims) != list(a.shape) or not equal(np.array(list(q.string_data), object).reshape(a.shape) if a.dtype == object else nh.to_array(q), a):
            ctx.fail('constant/saved', 'saved as %s' % short(q), rep)


def declared(ctx):
    from onnx_tool.tensor import Tensor
    rng = ctx.rng
    for _ in range(ctx.n(300, 5000)):
        if ctx.timeup():
            return
        t = pick(rng, list(TYPES))
        dims = [pick(rng, ['N', 'seq len', 'batch', 3, 1, 0, 1000]) for _ in range(R(rng, 1, 5))]
        p = oh.make_tensor_value_info('x', t, dims)
        rep = {'type': TP.DataType.Name(t), 'dims': dims}
        ctx.eval(('d', str(rep)), rep)
        with quiet():
            x = Tensor(p)
            q = x.make_value_proto()
        if list(x.get_shape()) != dims or np.dtype(x.dtype) != np.dtype(TYPES[t]) or x.name != 'x':
            ctx.fail('declared/load', 'loaded %s %s' % (x.get_shape(), x.dtype), rep)
        elif q.SerializeToString() != p.SerializeToString():
            ctx.fail('declared/save', 'saved as %s' % short(q), rep)


def attribute(rng, name, depth=0):
    k = R(rng, 0, 6 if depth else 7)
    if k == 0:
        return oh.make_attribute(name, int(numbers(rng, (), np.int64)))
    if k == 1:
        return oh.make_attribute(name, float(np.float32(rng.normal() * 10. ** rng.integers(-4, 4))))
    if k == 2:
        return oh.make_attribute(name, strings(rng, [1])[0])
    if k == 3:
        xs = [int(x) for x in numbers(rng, (R(rng, 0, 4),), np.int64)]
        return oh.make_attribute(name, xs, attr_type=onnx.AttributeProto.INTS)
    if k == 4:
        xs = [float(x) for x in rng.normal(size=R(rng, 0, 4)).astype(np.float32)]
        if rng.random() < .3:
            xs = [float(round(x)) for x in xs]
        return oh.make_attribute(name, xs, attr_type=onnx.AttributeProto.FLOATS)
    if k == 5:
        return oh.make_attribute(name, strings(rng, [R(rng, 0, 3)]), attr_type=onnx.AttributeProto.STRINGS)
    if k == 6:
        return oh.make_attribute(name, tensor(rng, 'value')[0])
    g = oh.make_graph([oh.make_node('Custom', ['a'], ['b'], **{'k': 3})], 'body', [oh.make_tensor_value_info('a', 1, ['N'])], [oh.make_tensor_value_info('b', 1, ['N'])])
    return oh.make_attribute(name, g)


ATTRS = ['alpha', 'axis', 'mode', 'pads', 'scales', 'value', 'keep', 'axes', 'body', 'kernel_shape', 'to', 'perm', 'group']


def attr_key(a):
    return (a.name, a.type, a.SerializeToString())


def node_key(n):
    return (n.op_type, n.domain if n.domain != 'ai.onnx' else '', list(n.input), list(n.output), sorted(map(attr_key, n.attribute)))


def attributes(ctx):
    from onnx_tool.node import create_node
    rng = ctx.rng
    for _ in range(ctx.n(800, 15000)):
        if ctx.timeup():
            return
        p = oh.make_node('Custom%d' % R(rng, 0, 1), ['x', ''] if rng.random() < .3 else ['x'], ['y'], 'n0', domain=pick(rng, [None, 'com.some', 'ai.onnx.ml']))
        names = list(rng.permutation(ATTRS)[:R(rng, 0, 4)])
        p.attribute.extend(attribute(rng, str(n)) for n in names)
        rep = {'node': short(p, 1000)}
        ctx.eval(('a', p.SerializeToString()), rep)
        try:
            with quiet():
                n = create_node(onnx.NodeProto.FromString(p.SerializeToString()))
                n.input, n.output = list(p.input), list(p.output)
                q = n.make_nodeproto()
        except Exception as e:
            ctx.fail('attribute/error', '%r' % e, rep)
            continue
        if node_key(q) != node_key(p) or q.name != p.name:
            d = [a for a, b in zip(sorted(map(attr_key, p.attribute)), sorted(map(attr_key, q.attribute))) if a != b]
            ctx.fail('attribute/saved', 'saved as %s; differs: %s' % (short(q, 600), short(d)), rep)


def known_ops(ctx):
    """every operator of the generators, with its own attributes"""
    from . import opgen as og
    from onnx_tool.node import create_node
    rng = ctx.rng
    gens = og.ALL
    for name in sorted(gens):
        for _ in range(ctx.n(6, 60)):
            if ctx.timeup():
                return
            try:
                c = gens[name](rng)
            except Exception:
                continue
            p = oh.make_node(c.op, ['i%d' % k for k in range(len(c.inputs))], ['o'], 'n0', **c.attrs)
            rep = {'node': short(p, 800)}
            ctx.eval(('k', p.SerializeToString()), rep)
            try:
                with quiet():
                    n = create_node(onnx.NodeProto.FromString(p.SerializeToString()))
                    n.input, n.output = list(p.input), list(p.output)
                    q = n.make_nodeproto()
            except Exception as e:
                ctx.fail('operator/error', '%s: %r' % (c.op, e), rep)
                continue
            if node_key(q) != node_key(p):
                ctx.fail('operator/saved', '%s saved as %s' % (c.op, short(q, 600)), rep)


def io_key(v):
    t = v.type.tensor_type
    return (v.name, t.elem_type, [d.dim_param or d.dim_value for d in t.shape.dim])


def compare(ctx, key, m, s, rep, consts=True, shapes=False):
    """'' or what the saved model s does not have of m"""
    a, b = m.graph, s.graph
    named = [n.name for n in a.node]
    if sorted(map(repr, map(node_key, a.node))) != sorted(map(repr, map(node_key, b.node))):
        miss = [x for x in map(node_key, a.node) if x not in list(map(node_key, b.node))]
        return ctx.fail(key + '/nodes', 'nodes missing or changed: %s' % short(miss, 900), rep)
    if [n for n in named if n and n not in [x.name for x in b.node]]:
        return ctx.fail(key + '/names', 'node names %s became %s' % (named, [x.name for x in b.node]), rep)
    used = {i for n in a.node for i in n.input}
    made = {o for n in b.node for o in n.output}
    at = {}
    for k, n in enumerate(b.node):
        for o in filter(None, n.output):
            at[o] = k
    bad = [(n.name, i) for k, n in enumerate(b.node) for i in n.input if at.get(i, -1) >= k]
    if bad:
        return ctx.fail(key + '/order', 'nodes %s read what is produced later' % bad, rep)
    ia, ib = {i.name: i for i in a.initializer}, {i.name: i for i in b.initializer}
    if consts:
        for k, p in ia.items():
            if k in used or k in [o.name for o in a.output]:
                if k not in ib:
                    return ctx.fail(key + '/constants', 'constant %s is missing' % k, rep)
                x = np.array(list(p.string_data), object).reshape(tuple(p.dims)) if p.data_type == TP.STRING else nh.to_array(p)
                y = np.array(list(ib[k].string_data), object).reshape(tuple(ib[k].dims)) if ib[k].data_type == TP.STRING else nh.to_array(ib[k])
                if ib[k].data_type != p.data_type or not equal(x, y):
                    return ctx.fail(key + '/constants', 'constant %s was %s, saved %s' % (k, short(x), short(y)), rep)
        if set(ib) - set(ia):
            return ctx.fail(key + '/constants', 'new constants %s' % sorted(set(ib) - set(ia)), rep)
    elif ib:
        return ctx.fail(key + '/constants', 'constants %s saved with a shape-only model' % sorted(ib), rep)
    xa = {i.name: io_key(i) for i in a.input if i.name in used and i.name not in ia}
    xb = {i.name: io_key(i) for i in b.input if consts or i.name not in ia}
    if shapes:
        xa, xb = {k: x[:2] for k, x in xa.items()}, {k: x[:2] for k, x in xb.items()}
    if xa != xb:
        return ctx.fail(key + '/inputs', 'inputs %s became %s' % (xa, xb), rep)
    oa, ob = [io_key(o) for o in a.output], [io_key(o) for o in b.output]
    if sorted(x[0] for x in oa) != sorted(x[0] for x in ob):
        return ctx.fail(key + '/outputs', 'outputs %s became %s' % (oa, ob), rep)
    if not shapes and sorted(map(repr, oa)) != sorted(map(repr, ob)):
        return ctx.fail(key + '/outputs', 'declared outputs %s became %s' % (oa, ob), rep)
    if shapes and sorted(x[:2] for x in oa) != sorted(x[:2] for x in ob):
        return ctx.fail(key + '/outputs', 'declared outputs %s became %s' % (oa, ob), rep)
    if [(o.domain, o.version) for o in m.opset_import] != [(o.domain, o.version) for o in s.opset_import] or m.ir_version != s.ir_version:
        return ctx.fail(key + '/versions', 'opset %s ir %s became %s %s' % (m.opset_import, m.ir_version, s.opset_import, s.ir_version), rep)
    return None


def decorate(rng, m):
    """symbolic dimensions, constants of every type, string attributes, If with outer references"""
    g = m.graph
    if rng.random() < .5:
        for k, i in enumerate(g.input):
            for j, d in enumerate(i.type.tensor_type.shape.dim):
                if rng.random() < .4:
                    d.dim_param = 'dim_%d_%d' % (k, j)
    if rng.random() < .6:
        p, a = tensor(rng, 'extra')
        g.initializer.append(p)
        g.node.append(oh.make_node('Custom', [g.input[0].name, 'extra'], ['yextra'], 'nextra', domain='my.ops'))
        g.node[-1].attribute.extend(attribute(rng, str(n)) for n in rng.permutation(ATTRS)[:R(rng, 0, 3)])
        g.output.append(oh.make_tensor_value_info('yextra', pick(rng, list(TYPES)), ['N', 2] if rng.random() < .5 else None))
    if rng.random() < .3:
        for n in g.node:
            if rng.random() < .2 and n.op_type != 'Custom':
                n.name = ''


def saved(g_or_m, d, **k):
    f = os.path.join(d, 'm.onnx')
    g_or_m.save_model(f, **k)
    return onnx.load_model(f)


def whole(ctx):
    from onnx_tool.model import Model
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix='c11_')
    try:
        for k in range(ctx.n(120, 3000)):
            if ctx.timeup():
                return
            m, feeds, outs, vals = models.model(rng)
            if rng.random() < .4:
                mm = oh.make_model(models.dag(rng), opset_imports=[oh.make_opsetid('', R(rng, 9, 17))])
                mm.ir_version = R(rng, 5, 9)
                for o in mm.graph.output:
                    o.type.tensor_type.elem_type = pick(rng, list(TYPES))
                m, feeds = mm, None
            m = onnx.ModelProto.FromString(m.SerializeToString())
            before = onnx.ModelProto.FromString(m.SerializeToString())
            decorate(rng, m)
            rep = {'model': models.text(m)}
            ctx.eval(('w', rep['model']), rep)
            how = {}
            shapes = feeds is not None and rng.random() < .3
            try:
                with quiet():
                    src = onnx.ModelProto.FromString(m.SerializeToString())
                    if rng.random() < .5:
                        f = os.path.join(d, 'in.onnx')
                        onnx.save_model(m, f)
                        src = f
                    x = Model(src)
                    if shapes and not any(n.domain == 'my.ops' for n in m.graph.node):
                        x.graph.shape_infer(feeds)
                    else:
                        shapes = False
                    if rng.random() < .3:
                        how['shape_only'] = True
                    if rng.random() < .3:
                        how['no_shape'] = True
                    s = saved(x, d, **how)
            except Exception as e:
                import traceback
                ctx.fail('model/error', '%s %r %s' % (how, e, traceback.format_exc()[-500:]), rep)
                continue
            rep = dict(rep, save=how, shapes=shapes)
            if compare(ctx, 'model', m, s, rep, 'shape_only' not in how, shapes) is not None:
                continue
            if how.get('shape_only'):
                continue
            try:
                with quiet():
                    y = Model(onnx.ModelProto.FromString(s.SerializeToString()))
                    s2 = saved(y, d)
            except Exception as e:
                ctx.fail('again/error', '%r' % e, rep)
                continue
            ga, gb = x.graph, y.graph
            na = {n: (v.op_type, list(v.input), list(v.output)) for n, v in ga.nodemap.items()}
            nb = {n: (v.op_type, list(v.input), list(v.output)) for n, v in gb.nodemap.items()}
            if na != nb or sorted(ga.input) != sorted(gb.input) or sorted(ga.output) != sorted(gb.output) or \
                    {i for i in ga.initials if any(i in v[1] for v in na.values())} != set(gb.initials):
                ctx.fail('again/graph', 'loading the saved model gives %s, was %s' % (nb, na), rep)
                continue
            compare(ctx, 'again', s, s2, rep)
            if feeds is not None and not any(n.domain == 'my.ops' for n in m.graph.node):
                try:
                    with quiet():
                        onnx.checker.check_model(s, full_check=True)
                except Exception as e:
                    try:
                        with quiet():
                            onnx.checker.check_model(m, full_check=True)
                    except Exception:
                        continue
                    ctx.fail('model/invalid', '%s' % short(str(e), 600), rep)
                    continue
                from onnx.reference import ReferenceEvaluator
                with quiet():
                    want = dict(zip([o.name for o in m.graph.output], ReferenceEvaluator(m).run(None, feeds)))
                    got = dict(zip([o.name for o in s.graph.output], ReferenceEvaluator(s).run(None, feeds)))
                for o in want:
                    if not equal(want[o], got[o]):
                        ctx.fail('model/values', 'output %s differs' % o, rep)
                        break
    finally:
        shutil.rmtree(d)


def outer(ctx):
    """subgraphs that read constants and activations of the outer graph"""
    from onnx_tool.model import Model
    from onnx.reference import ReferenceEvaluator
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix='c11_')
    try:
        for _ in range(ctx.n(20, 300)):
            if ctx.timeup():
                return
            use = [pick(rng, ['w', 'x', 'h']) for _ in range(2)]
            bodies = [oh.make_graph([oh.make_node('Add', [u, 'v'], ['b%d' % k], 'add%d' % k)], 'body%d' % k, [], [oh.make_tensor_value_info('b%d' % k, 1, [3])]) for k, u in enumerate(use)]
            nodes = [oh.make_node('Relu', ['x'], ['h'], 'relu'), oh.make_node('If', ['c'], ['y'], 'if', then_branch=bodies[0], else_branch=bodies[1]), oh.make_node('Neg', ['h'], ['z'], 'neg')]
            gp = oh.make_graph(nodes, 'g', [oh.make_tensor_value_info('x', 1, [3]), oh.make_tensor_value_info('c', TP.BOOL, [])],
                               [oh.make_tensor_value_info('y', 1, [3]), oh.make_tensor_value_info('z', 1, [3])],
                               [nh.from_array(rng.normal(size=3).astype(np.float32), n) for n in ('w', 'v')])
            m = oh.make_model(gp, opset_imports=[oh.make_opsetid('', 15)])
            m.ir_version = 8
            rep = {'model': models.text(m)}
            ctx.eval(('o', rep['model']), rep)
            try:
                with quiet():
                    s = saved(Model(onnx.ModelProto.FromString(m.SerializeToString())), d)
                    feeds = {'x': rng.normal(size=3).astype(np.float32), 'c': np.array(bool(R(rng, 0, 1)))}
                    want = ReferenceEvaluator(m).run(['y', 'z'], feeds)
                    got = ReferenceEvaluator(s).run(['y', 'z'], feeds)
            except Exception as e:
                ctx.fail('subgraph/error', '%r' % e, rep)
                continue
            if not all(map(equal, want, got)):
                ctx.fail('subgraph/values', 'outputs differ', rep)
    finally:
        shutil.rmtree(d)


def run(ctx):
    for name, f in (('constants', constants), ('declared', declared), ('attributes', attributes), ('operators', known_ops), ('models', whole), ('subgraphs', outer),
                    ('command line', lambda ctx: cli.files(ctx, ctx.n(40, 400)))):
        with ctx.section(name):
            f(ctx)
