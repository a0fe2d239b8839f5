"""Computed values against ONNX semantics: single nodes (reference evaluator or brute-force definitions) and whole graphs."""
import math
import numpy as np
import onnx
from onnx import helper as oh
from onnx.reference import ReferenceEvaluator
from . import opgen as og
from .opgen import R, pick, Case
from .core import quiet, short

# operators whose values the tool provides (an exception there is a failure)
PROVIDED = ['Add', 'Sub', 'Mul', 'Div', 'Pow', 'Mod', 'Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'And', 'Or', 'Xor', 'Where',
            'Sum', 'Min', 'Max', 'Neg', 'Abs', 'Ceil', 'Floor', 'Round', 'Exp', 'Log', 'Sqrt', 'Sin', 'Cos', 'Sigmoid', 'Tanh', 'Atan',
            'Sign', 'Relu', 'Elu', 'LeakyRelu', 'HardSigmoid', 'HardSwish', 'Softplus', 'Reciprocal', 'Erf', 'Not', 'Identity', 'Softmax',
            'Clip', 'CumSum', 'Transpose', 'Concat', 'Reshape', 'Flatten', 'Gather', 'GatherND', 'ScatterND', 'Split', 'Pad', 'Expand',
            'Tile', 'ReduceMean', 'ReduceSum', 'ReduceMax', 'ReduceMin', 'ReduceProd', 'ReduceL2', 'ArgMax', 'ConstantOfShape', 'Range',
            'Shape', 'Cast', 'Trilu', 'Compress', 'NonZero', 'Dropout', 'Constant', 'GlobalAveragePool', 'MatMul', 'Gemm',
            'BatchNormalization', 'MatMulInteger']
NOT_PROVIDED = ['LogSoftmax', 'PRelu', 'ScatterElements', 'TopK', 'Resize', 'DepthToSpace', 'GridSample', 'RoiAlign', 'ConvTranspose',
                'AveragePool', 'Einsum', 'LSTM', 'GRU', 'LayerNormalization', 'InstanceNormalization', 'LRN', 'QuantizeLinear']


def check_explicit(ctx, case, want, group):
    """want: list of arrays computed by a brute-force definition"""
    return og.check_value(ctx, case, group, ref=want)


def ref_slice(x, starts, ends, axes, steps):
    axes = range(len(starts)) if axes is None else axes
    steps = [1] * len(starts) if steps is None else steps
    y = x
    for a, s, e, p in zip(axes, starts, ends, steps):
        d = x.shape[a]
        s, e = (s + d if s < 0 else s), (e + d if e < 0 else e)
        if p > 0:
            s, e = min(max(s, 0), d), min(max(e, 0), d)
        else:
            s, e = min(max(s, 0), d - 1), min(max(e, -1), d - 1)
        y = np.take(y, list(range(s, e, p)), axis=a)
    return y


def ref_maxpool(x, k, st, di, pads, out):
    nd = len(k)
    y = np.zeros(list(x.shape[:2]) + list(out), x.dtype)
    for i in np.ndindex(y.shape):
        vals = []
        for j in np.ndindex(*k):
            p = [i[2 + a] * st[a] + j[a] * di[a] - pads[a] for a in range(nd)]
            if all(0 <= p[a] < x.shape[2 + a] for a in range(nd)):
                vals.append(x[i[:2] + tuple(p)])
        y[i] = max(vals)
    return y


def run(ctx):
    rng = ctx.rng
    for op in PROVIDED:
        with ctx.section('reference ' + op):
            for i in range(ctx.n(28, 500)):
                if ctx.timeup():
                    break
                c = og.ALL[op](rng)
                if op == 'Range' and c.inputs[0].dtype.kind == 'f':
                    c.inputs = [a / np.float32(2) for a in c.inputs]
                og.check_value(ctx, c, 'ref')
    for op in NOT_PROVIDED:
        with ctx.section('not provided ' + op):
            for i in range(ctx.n(4, 40)):
                c = og.ALL[op](rng)
                try:
                    ref = c.reference()
                except Exception:
                    continue
                ctx.eval(('np', c.sig()), c.describe())
                try:
                    outs = og.tool_value(c)
                except Exception:
                    continue
                if any(t.numpy is None for t in outs):
                    ctx.fail('np/%s' % op, '%s returned without computing a value or raising, for %s' % (op, short(c.sig())), c.describe())
                else:
                    og.check_value(ctx, c, 'np', ref=ref)
    with ctx.section('conv'):
        for i in range(ctx.n(40, 500)):
            if ctx.timeup():
                break
            c = og.g_conv(rng)
            ok = len(c.inputs[1].shape) == 4 and c.attrs.get('group', 1) == 1
            if not ok or np.prod(c.inputs[0].shape) * np.prod(c.inputs[1].shape) > 60000:
                continue
            og.check_value(ctx, c, 'ref')
        for i in range(ctx.n(12, 60)):
            c = og.g_conv(rng)
            if len(c.inputs[1].shape) == 4 and c.attrs.get('group', 1) == 1:
                continue
            ctx.eval(('cnp',) + c.sig())
            try:
                og.tool_value(c)
            except Exception:
                continue
            og.check_value(ctx, c, 'ref')
    with ctx.section('definitions'):
        for i in range(ctx.n(160, 2500)):
            if ctx.timeup():
                break
            dt = pick(rng, og.NUMS)
            r = R(rng, 1, 4)
            s = [R(rng, 1, 5) for _ in range(r)]
            x = og.rarr(rng, s, dt)
            # slices, all forms, extreme bounds
            ax = [int(v) for v in rng.permutation(r)[:R(rng, 1, r)]]
            form = i % 4
            if form == 1:
                ax = list(range(len(ax)))
            st = [pick(rng, [2 ** 31 - 1, -2 ** 31]) if rng.random() < .15 else R(rng, -2 * s[a] - 1, 2 * s[a] + 1) for a in ax]
            en = [pick(rng, [2 ** 31 - 1, -2 ** 31, 2 ** 62]) if rng.random() < .2 else R(rng, -2 * s[a] - 1, 2 * s[a] + 1) for a in ax]
            sp = [(R(rng, 1, 3) if rng.random() < .5 else -R(rng, 1, 3)) if form == 3 else 1 for a in ax]
            nax = [a - r if rng.random() < .5 else a for a in ax]
            A = lambda v: np.asarray(v, np.int64)
            if form == 0:
                c = Case('Slice', [x], {'starts': st, 'ends': en, 'axes': ax}, opset=9)
            elif form == 1:
                c = Case('Slice', [x, A(st), A(en)])
            elif form == 2:
                c = Case('Slice', [x, A(st), A(en), A(nax)])
            else:
                c = Case('Slice', [x, A(st), A(en), A(nax), A(sp)])
            check_explicit(ctx, c, [ref_slice(x, st, en, ax, sp)], 'def')
            # squeeze / unsqueeze, attribute and input forms
            k = R(rng, 1, 3)
            q = r + k
            ua = [int(v) for v in rng.permutation(q)[:k]]
            full = list(s)
            for a in sorted(ua):
                full.insert(a, 1)
            na = [a - q if rng.random() < .4 else a for a in ua]
            u = Case('Unsqueeze', [x], {'axes': na}, opset=11) if i % 2 else Case('Unsqueeze', [x, A(na)])
            check_explicit(ctx, u, [x.reshape(full)], 'def')
            xs = x.reshape(full)
            u = Case('Squeeze', [xs], {'axes': na}, opset=11) if i % 2 else Case('Squeeze', [xs, A(na)])
            check_explicit(ctx, u, [x], 'def')
            if i % 5 == 0:
                check_explicit(ctx, Case('Squeeze', [xs], {}), [x.reshape([d for d in full if d != 1])], 'def')
            # GatherElements with negative indices and axes
            a = R(rng, -r, r - 1)
            t = list(s)
            t[a] = R(rng, 1, 4)
            idx = rng.integers(-s[a], s[a], t).astype(np.int64)
            want = np.take_along_axis(x, np.where(idx < 0, idx + s[a], idx), axis=a) if all(t[b] == s[b] for b in range(r) if b != a % r) else None
            check_explicit(ctx, Case('GatherElements', [x, idx], {'axis': a} if a % r or rng.random() < .5 else {}), [want], 'def')
            # OneHot
            si = s[:R(rng, 1, min(3, r))]
            d = R(rng, 1, 5)
            oi = rng.integers(-d - 2, d + 3, si).astype(pick(rng, [np.int64, np.int32]))
            v = og.rarr(rng, (2,), pick(rng, [np.float32, np.int64, np.int32]))
            oa = R(rng, -len(si) - 1, len(si))
            wi = np.where(oi < 0, oi + d, oi)
            w = np.where(np.expand_dims(wi, -1) == np.arange(d), v[1], v[0]).astype(v.dtype)
            df = rng.random() < .25
            w = np.moveaxis(w, -1, -1 if df else oa)
            dep = np.asarray(d, np.int64) if i % 2 else np.asarray([d], np.int64)
            check_explicit(ctx, Case('OneHot', [oi, dep, v], {} if df else {'axis': oa}), [w], 'def')
    with ctx.section('empty results'):
        for s in ([2, 3], [4], [1, 2, 2]):
            x = np.zeros(s, np.float32)
            ctx.eval(('nonzero', tuple(s)))
            o = og.tool_value(Case('NonZero', [x], static=[0]))
            if list(o[0].get_shape()) != [max(1, len(s)), 0]:
                ctx.fail('NonZero/all-zero', 'NonZero of all-zero input of shape %s gives shape %s, ONNX gives %s' % (s, list(o[0].get_shape()), [max(1, len(s)), 0]), {'shape': s})
    with ctx.section('max pooling'):
        from spec import shapes as S
        for i in range(ctx.n(50, 700)):
            if ctx.timeup():
                break
            nd = R(rng, 1, 3)
            k = [R(rng, 1, 3) for _ in range(nd)]
            x = og.rarr(rng, [R(rng, 1, 2), R(rng, 1, 2)] + [R(rng, 4, 7) if nd < 3 else 4 for _ in range(nd)])
            at = {'kernel_shape': k}
            st, di, auto = [1] * nd, [1] * nd, None
            if rng.random() < .7:
                at['strides'] = st = [R(rng, 1, 3) for _ in range(nd)]
            if rng.random() < .4:
                at['dilations'] = di = [R(rng, 1, 2) for _ in range(nd)]
            ke = [(a - 1) * b + 1 for a, b in zip(k, di)]
            if any(e > d for e, d in zip(ke, x.shape[2:])):
                continue
            pd, ceil = [0] * (2 * nd), 0
            u = rng.random()
            if u < .45:
                at['pads'] = pd = [R(rng, 0, kk - 1) for kk in k] + [R(rng, 0, kk - 1) for kk in k]
            elif u < .7:
                auto = at['auto_pad'] = pick(rng, ['SAME_UPPER', 'SAME_LOWER', 'VALID', 'NOTSET'])
            if auto is None and rng.random() < .4:
                ceil = at['ceil_mode'] = 1
            out = [S.conv_axis(x.shape[2 + a], k[a], st[a], di[a], pd[a], pd[a + nd], auto, ceil) for a in range(nd)]
            if auto in ('SAME_UPPER', 'SAME_LOWER'):
                for a in range(nd):
                    tot = max(0, (out[a] - 1) * st[a] + ke[a] - x.shape[2 + a])
                    b = tot // 2 if auto == 'SAME_UPPER' else tot - tot // 2
                    pd[a], pd[a + nd] = b, tot - b
            if ceil and any((o - 1) * s_ >= d + p for o, s_, d, p in zip(out, st, x.shape[2:], pd)):
                continue
            check_explicit(ctx, Case('MaxPool', [x], at, opset=12), [ref_maxpool(x, k, st, di, pd, out)], 'def')
    with ctx.section('graphs'):
        for i in range(ctx.n(60, 1200)):
            if ctx.timeup():
                break
            graph_case(ctx, rng)
    with ctx.section('shape arithmetic'):
        for i in range(ctx.n(60, 1200)):
            if ctx.timeup():
                break
            shape_case(ctx, rng)


UN = ['Neg', 'Abs', 'Relu', 'Sigmoid', 'Tanh', 'Exp', 'Floor', 'Ceil', 'Sqrt', 'Identity', 'Softmax', 'Transpose', 'Unsqueeze', 'ReduceMean',
      'Flatten', 'Shape', 'Gather', 'Concat', 'Split', 'Slice', 'Cast']
BI = ['Add', 'Sub', 'Mul', 'Div', 'Min', 'Max', 'Where', 'MatMul']


def rand_graph(rng, n_nodes):
    """random well-formed float model: (model, feeds)"""
    nodes, inits, vals = [], [], {}
    feeds = {}
    for k in range(R(rng, 1, 2)):
        s = og.rshape(rng, 2, 3, 1, 4)
        feeds['x%d' % k] = vals['x%d' % k] = og.rarr(rng, s, np.float32)
    cnt = [0]

    def const(a):
        nm = 'c%d' % len(inits)
        inits.append(onnx.numpy_helper.from_array(np.asarray(a), nm))
        return nm

    def emit(op, ins, n_out=1, **at):
        outs = ['t%d_%d' % (cnt[0], j) for j in range(n_out)]
        nd = oh.make_node(op, ins, outs, name='n%d' % cnt[0], **at)
        cnt[0] += 1
        nodes.append(nd)
        m = oh.make_model(oh.make_graph([nd], 'g', [oh.make_tensor_value_info(i, og.DT[vals[i].dtype], list(vals[i].shape)) for i in dict.fromkeys(ins) if i in vals],
                                        [oh.make_tensor_value_info(o, 1, None) for o in outs], inits), opset_imports=[oh.make_opsetid('', 13)], ir_version=8)
        with quiet():
            res = ReferenceEvaluator(m).run(None, {i: vals[i] for i in ins if i in vals})
        for o, v in zip(outs, res):
            vals[o] = np.asarray(v)
        return outs

    for _ in range(n_nodes):
        fl = [v for v in vals if vals[v].dtype == np.float32 and vals[v].ndim >= 1]
        a = fl[R(rng, max(0, len(fl) - 4), len(fl) - 1)]
        A = vals[a]
        r = A.ndim
        if rng.random() < .55:
            op = pick(rng, UN)
            ax = R(rng, -r, r - 1)
            if op == 'Sqrt':
                emit('Sqrt', emit('Abs', [a]))
            elif op == 'Transpose':
                emit(op, [a], perm=[int(v) for v in rng.permutation(r)])
            elif op == 'Unsqueeze':
                if r < 5:
                    emit(op, [a, const(np.asarray([R(rng, -r - 1, r)], np.int64))])
            elif op == 'ReduceMean':
                emit(op, [a], axes=[ax], keepdims=R(rng, 0, 1) if r > 1 else 1)
            elif op == 'Softmax':
                emit(op, [a], axis=ax)
            elif op == 'Flatten':
                emit(op, [a], axis=R(rng, 0, r))
            elif op == 'Gather':
                emit(op, [a, const(rng.integers(-A.shape[ax], A.shape[ax], (2,)).astype(np.int64))], axis=ax)
            elif op == 'Concat':
                emit(op, [a, a], axis=ax)
            elif op == 'Split':
                d = A.shape[ax]
                if d > 1:
                    p = R(rng, 1, d - 1)
                    emit(op, [a, const(np.asarray([p, d - p], np.int64))], 2, axis=ax)
            elif op == 'Slice' and rng.random() < .4:
                # optional operands left out before given ones
                if rng.random() < .5:
                    emit('Clip', [a, '', const(np.asarray(rng.normal(), np.float32))])
                else:
                    emit(op, [a, const(np.zeros(r, np.int64)), const(np.asarray([max(1, d - 1) for d in A.shape], np.int64)), '', const(np.asarray([R(rng, 1, 2) for _ in A.shape], np.int64))])
            elif op == 'Slice':
                emit(op, [a, const(np.asarray([0], np.int64)), const(np.asarray([max(1, A.shape[ax] - 1)], np.int64)), const(np.asarray([ax], np.int64))])
            elif op == 'Shape':
                sh, = emit('Shape', [a])
                emit('Reshape', [a, sh])
            elif op == 'Cast':
                emit('Cast', emit('Cast', [a], to=7), to=1)
            elif op == 'Exp':
                emit('Exp', emit('Sigmoid', [a]))
            else:
                emit(op, [a])
        else:
            op = pick(rng, BI)
            cand = [v for v in fl if vals[v].shape == A.shape] if op != 'MatMul' else fl
            b = pick(rng, cand)
            if op == 'MatMul':
                if r >= 2:
                    emit(op, [a, const(og.rarr(rng, (A.shape[-1], R(rng, 1, 3)), np.float32, -1, 1))])
            elif op == 'Where':
                emit(op, [emit('Less', [a, b])[0], a, b])
            elif rng.random() < .5:
                c = og.rarr(rng, tuple(1 if rng.random() < .4 else d for d in A.shape[R(rng, 0, r - 1):]), np.float32)
                if op == 'Div':
                    c = np.abs(c) + np.float32(.5)
                emit(op, [a, const(c)] if op == 'Div' or rng.random() < .6 else [const(c), a])
            elif op != 'Div':
                emit(op, [a, b])
    used = {i for n in nodes for i in n.input}
    outs = [o for n in nodes for o in n.output if o not in used] or [nodes[-1].output[0]] if nodes else []
    feeds = {k: v for k, v in feeds.items() if k in used}
    g = oh.make_graph(nodes, 'g', [oh.make_tensor_value_info(k, 1, list(v.shape)) for k, v in feeds.items()],
                      [oh.make_tensor_value_info(o, og.DT[vals[o].dtype], list(vals[o].shape)) for o in outs], inits)
    return oh.make_model(g, opset_imports=[oh.make_opsetid('', 13)], ir_version=8), feeds, outs, vals


def graph_case(ctx, rng):
    from onnx_tool.graph import Graph
    from onnx_tool.utils import ModelConfig
    m, feeds, outs, vals = rand_graph(rng, R(rng, 2, 8))
    if not outs or not feeds:
        return
    if any(not np.all(np.isfinite(v)) for v in vals.values() if v.dtype.kind == 'f'):
        return
    ops = [n.op_type for n in m.graph.node]
    ctx.eval(('graph', ops, [v.shape for v in feeds.values()]), ops)
    rep = {'model': onnx.printer.to_text(m)[:4000], 'feeds': {k: v.tolist() for k, v in feeds.items()}}
    try:
        with quiet():
            g = Graph(m.graph, ModelConfig({'constant_folding': bool(R(rng, 0, 1))}))
            if R(rng, 0, 1):
                try:
                    g.value_infer({k: np.ascontiguousarray(v.reshape(-1)[::-1].reshape(v.shape)) for k, v in feeds.items()})
                except Exception:
                    g = Graph(m.graph, ModelConfig({}))
            got = g.value_infer(feeds)
            again = g.value_infer(feeds)
    except Exception as e:
        ctx.fail('graph/error', 'value inference of the graph %s raised %s' % (ops, short(e)), rep)
        return
    name = dict(zip(g.output, got))
    for o in outs:
        if o not in name or name[o] is None:
            ctx.fail('graph/missing', 'graph output %s of %s has no value' % (o, ops), rep)
            continue
        v, w = np.asarray(name[o]), vals[o]
        if v.shape != w.shape or v.dtype != w.dtype or not np.allclose(v.astype(float), w.astype(float), rtol=1e-3, atol=1e-3, equal_nan=True):
            ctx.fail('graph/value', 'graph %s: output %s is %s %s, ONNX gives %s %s' % (ops, o, v.dtype, short(v.tolist()), w.dtype, short(w.tolist())), rep)
    for a, b in zip(got, again):
        if not np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True):
            ctx.fail('graph/repeat', 'a second value inference of %s gives different values' % ops, rep)


def shape_case(ctx, rng):
    """integer shape arithmetic feeding Reshape/Expand/ConstantOfShape: shapes come out as ONNX computes them"""
    from onnx_tool.graph import Graph
    from onnx_tool.utils import ModelConfig
    s = [R(rng, 1, 6) for _ in range(R(rng, 2, 4))]
    r = len(s)
    inits, nodes = [], []
    vals = {'sh': np.asarray(s, np.int64)}

    def const(a, dt=np.int64):
        nm = 'c%d' % len(inits)
        inits.append(onnx.numpy_helper.from_array(np.asarray(a, dt), nm))
        return nm

    def emit(op, ins, **at):
        o = 's%d' % len(nodes)
        nodes.append(oh.make_node(op, ins, [o], name='n' + o, **at))
        return o
    sh = emit('Shape', ['x'])
    dims = []
    want = []
    for _ in range(R(rng, 1, 4)):
        k = R(rng, -r, r - 1)
        v = s[k]
        t = emit('Gather', [sh, const(k if rng.random() < .5 else [k])], axis=0)
        scalar = inits[-1].dims == [] or len(inits[-1].dims) == 0
        for _ in range(R(rng, 0, 3)):
            op = pick(rng, ['Add', 'Mul', 'Sub', 'Div', 'Max', 'Min', 'Neg2', 'Mod', 'Cast', 'Floor'])
            c = R(rng, 1, 4)
            if op == 'Neg2':
                t = emit('Neg', [emit('Neg', [t])])
            elif op == 'Cast':
                t = emit('Cast', [emit('Cast', [t], to=1)], to=7)
            elif op == 'Floor':
                t = emit('Cast', [emit('Floor', [emit('Div', [emit('Cast', [t], to=1), const(float(c), np.float32)])])], to=7)
                v = v // c
            else:
                t = emit(op, [t, const(c)])
                v = {'Add': v + c, 'Mul': v * c, 'Sub': v - c, 'Div': int(v / c), 'Max': max(v, c), 'Min': min(v, c), 'Mod': v % c}[op]
        if v < 0:
            return
        if scalar:
            t = emit('Unsqueeze', [t, const([0])])
        dims.append(t)
        want.append(v)
    if rng.random() < .5:
        sl = emit('Slice', [sh, const([1]), const([r]), const([0])])
        dims.append(sl)
        want += s[1:]
    if int(np.prod(want)) > 10 ** 6:
        return
    cat = emit('Concat', dims, axis=0)
    final = emit('ConstantOfShape', [cat])
    emit('Relu', [final])
    out = nodes[-1].output[0]
    m = oh.make_model(oh.make_graph(nodes, 'g', [oh.make_tensor_value_info('x', 1, s)], [oh.make_tensor_value_info(out, 1, None)], inits),
                      opset_imports=[oh.make_opsetid('', 13)], ir_version=8)
    ctx.eval(('shape', s, [n.op_type for n in nodes]), (s, want))
    rep = {'model': onnx.printer.to_text(m)[:4000]}
    try:
        with quiet():
            g = Graph(m.graph, ModelConfig({}))
            g.shape_infer({'x': np.zeros(s, np.float32)})
            got = list(g.tensormap[out].get_shape())
            got2 = list(g.tensormap[final].get_shape())
    except Exception as e:
        ctx.fail('shape/error', 'shape arithmetic graph raised %s' % short(e), rep)
        return
    if got != want or got2 != want:
        ctx.fail('shape/value', 'shape arithmetic over %s gives %s, ONNX gives %s' % (s, got, want), rep)
