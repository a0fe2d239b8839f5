"""Weight quantisation: code range and error bound of the scalar functions, block statistics, packing, graph rewriting."""
import numpy as np
from pyvc.contract import Entry, Case
from spec.sym import And, Or, Not, Max, Min, ite, ceildiv

REL = 1e-5


def within(v, a, b, scale):
    """a <= b; natively up to floating-point rounding relative to scale"""
    return a <= b + (REL * abs(scale) if v.native else 0)


def p2(b):
    return 2 ** b


def params(v, sym):
    """calibration: the range is covered, the scale is positive and the smallest such"""
    def run_():
        pass
    return run_


def sym_scalar(v):
    import onnx_tool.quantization as q
    bits = v.int('bits', 2, 16 if v.native else None)
    lo, hi, f = v.real('fmin'), v.real('fmax'), v.real('f')
    v.require(lo <= f)
    v.require(f <= hi)

    def run():
        s, z = q.get_symmetric_parameter(lo, hi, bits)
        c = q.symmetric_quant(f, s, z, bits)
        d = q.symmetric_dequant(c, s, z)
        m = Max(abs(lo), abs(hi))
        return {'zero point': z, 'positive scale': s > 0,
                'code range': And(c >= -p2(bits - 1), c <= p2(bits - 1) - 1),
                'half step': And(within(v, d - f, s / 2, m + s), within(v, f - d, s / 2, m + s)),
                'zero': Or(Not(f == 0), c == 0),
                'step': Or(m == 0, And(within(v, s * (p2(bits - 1) - 1), m, m), within(v, m, s * (p2(bits - 1) - 1), m)))}
    return Case(run, {'zero point': 0, 'positive scale': True, 'code range': True, 'half step': True, 'zero': True, 'step': True}, False,
                {'bits': bits, 'fmin': lo, 'fmax': hi, 'f': f})


def asym_scalar(v):
    import onnx_tool.quantization as q
    bits = v.int('bits', 1, 16 if v.native else None)
    lo, hi, f = v.real('fmin'), v.real('fmax'), v.real('f')
    v.require(lo <= f)
    v.require(f <= hi)

    def run():
        s, z = q.get_asymmetric_u8_parameter(lo, hi, bits)
        c = q.asymmetric_quant(f, s, z, bits)
        d = q.asymmetric_dequant(c, s, z)
        span = Max(hi, 0) - Min(lo, 0)
        return {'zero point range': And(z >= 0, z <= p2(bits) - 1), 'positive scale': s > 0,
                'code range': And(c >= 0, c <= p2(bits) - 1),
                'half step': And(within(v, d - f, s / 2, span + s), within(v, f - d, s / 2, span + s)),
                'zero': Or(Not(f == 0), c == z),
                'step': Or(span == 0, And(within(v, s * (p2(bits) - 1), span, span), within(v, span, s * (p2(bits) - 1), span)))}
    return Case(run, {'zero point range': True, 'positive scale': True, 'code range': True, 'half step': True, 'zero': True, 'step': True}, False,
                {'bits': bits, 'fmin': lo, 'fmax': hi, 'f': f})


def clip_sym(v):
    """outside the calibrated range the code saturates"""
    import onnx_tool.quantization as q
    bits = v.int('bits', 1, 16 if v.native else None)
    f, s, z = v.real('f'), v.real('s'), v.int('z')
    v.require(s > 0)

    def run():
        a = q.symmetric_quant(f, s, 0, bits)
        b = q.asymmetric_quant(f, s, z, bits)
        return {'sym': And(a >= -p2(bits - 1), a <= p2(bits - 1) - 1), 'asym': And(b >= 0, b <= p2(bits) - 1)}
    return Case(run, {'sym': True, 'asym': True}, False, {'bits': bits, 'f': f, 's': s, 'z': z})


GOOD = {'range': True, 'own statistics': True, 'half step': True, 'zero': True}


def check_codes(v, w, Q, s, z, kind, gran, block, bits, shape, half=0):
    return v.everywhere(shape, element_ok(v, w, Q, s, z, kind, gran, block, bits, shape, half))


def element_ok(v, w, Q, s, z, kind, gran, block, bits, shape, half=0):
    """code range, error, and statistics of every element of a quantised matrix w (whatever the layout it came from)"""
    r, c = shape

    def ok(i, j):
        if gran == 'tensor':
            rg, sc, zp = [(0, r), (0, c)], s.item() if v.native else s[()], z.item() if v.native else z[()]
        elif gran == 'channel':
            rg, sc, zp = [(i, i + 1), (0, c)], s[i], z[i]
        else:
            b = j // block
            rg, sc, zp = [(i, i + 1), (b * block, Min(b * block + block, c))], s[i, b], z[i, b]
        mn, mx = v.extreme(w, 'min', rg), v.extreme(w, 'max', rg)
        x, code = w[i, j], Q[i, j]
        if v.native:
            mn, mx, x, code, sc, zp = float(mn), float(mx), float(x), int(code), float(sc), int(zp)
        d = (code - zp) * sc
        slack = sc * half * p2(bits) if v.native else 0        # stored in half precision
        if kind == 'sym':
            m = Max(abs(mn), abs(mx))
            a = And(zp == 0, code >= -p2(bits - 1), code <= p2(bits - 1) - 1)
            st = s_exact(v, sc, m, p2(bits - 1) - 1, half)
        else:
            m = Max(mx, 0) - Min(mn, 0)
            a = And(zp >= 0, zp <= p2(bits) - 1, code >= 0, code <= p2(bits) - 1)
            st = s_exact(v, sc, m, p2(bits) - 1, half)
        return {'range': a, 'own statistics': st, 'half step': And(within(v, d - x, sc / 2 + slack, m + sc), within(v, x - d, sc / 2 + slack, m + sc)),
                'zero': Or(Not(x == 0), code == zp)}
    return ok


def group_shape(gran, r, c, block):
    return [] if gran == 'tensor' else [r] if gran == 'channel' else [r, ceildiv(c, block)]


def whole(kind, gran, dtype=np.float32):
    """quantize on a weight of any shape: per tensor, per channel, per block of any size"""
    def fn(v):
        import onnx_tool.quantization as q
        r, c = v.small('r', 1, 4), v.small('c', 1, 7)
        bits = v.int('bits', 2, 12 if v.native else None)
        w = v.tab('w', [r, c], dtype)
        block = {'tensor': 0, 'channel': -1}.get(gran)
        if block is None:
            block = v.small('block', 1, 4)

        def run():
            Q, s, z = q.quantize(w, block, kind, bits)
            return {'shape': [x for x in Q.shape], 'dtype': str(np.dtype(Q.dtype)),
                    'scale shape': [x for x in s.shape], 'zero shape': [x for x in z.shape],
                    'every element': check_codes(v, w, Q, s, z, kind, gran, block, bits, [r, c])}
        gs = group_shape(gran, r, c, block)
        return Case(run, {'shape': [r, c], 'dtype': 'int32', 'scale shape': gs, 'zero shape': gs, 'every element': GOOD}, False,
                    {'bits': bits, 'block': block, 'type': kind, 'shape': [r, c], 'w': w.tolist() if v.native else None})
    return fn


# ------------------------------------------------------------------ a constant of a graph
TOPO = {
    'MatMul': [('MatMul', ['x', 'w'], {})],
    'Gemm': [('Gemm', ['x', 'w', 'b'], {})],
    'Gemm transB': [('Gemm', ['x', 'w', 'b'], {'transB': 1})],
    'shared': [('MatMul', ['x', 'w'], {}), ('Add', ['y0', 'c'], {}), ('MatMul', ['x', 'w'], {})],
    'several weights': [('MatMul', ['x', 'w2'], {}), ('MatMul', ['x', 'w'], {}), ('Add', ['y0', 'y1'], {})],
}


def topo_model(name):
    import onnx
    from onnx import helper as oh, numpy_helper as nh
    ns = [oh.make_node(op, ins, ['y%d' % k], 'n%d' % k, **at) for k, (op, ins, at) in enumerate(TOPO[name])]
    used = {i for _, ins, _ in TOPO[name] for i in ins}
    ini = [nh.from_array(np.ones((4, 4), np.float32), x) for x in ('w', 'w2') if x in used] + \
          [nh.from_array(np.ones((4,), np.float32), x) for x in ('b', 'c') if x in used]
    ins = [oh.make_tensor_value_info('x', 1, (4, 4))]
    outs = [oh.make_tensor_value_info('y%d' % k, 1, None) for k in range(len(ns))]
    return oh.make_model(oh.make_graph(ns, 'g', ins, outs, ini))


class no_protos:
    """arrays of symbolic shape have no protobuf form (the encoder is the subject of C11)"""

    def __enter__(self):
        import onnx_tool.tensor as T
        self.T, self.f = T.Tensor, T.Tensor.make_tensor_proto
        f = self.f
        T.Tensor.make_tensor_proto = lambda t: f(t) if type(t.numpy).__module__ == 'numpy' and t.numpy.dtype != object else None

    def __exit__(self, *a):
        self.T.make_tensor_proto = self.f


class callees:
    """graph_quantize is checked against the contracts of quantize and pack_4bits (discharged above), not their bodies:
    their results are arbitrary arrays that satisfy the contract"""

    def __init__(self, v):
        self.v, self.saved = v, {}

    def __enter__(self):
        import onnx_tool.quantization as q
        self.q = q
        for n in ('quantize', 'pack_4bits'):
            if hasattr(q, n):
                self.saved[n] = getattr(q, n)
                setattr(q, n, getattr(self, n))

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(self.q, n, f)

    def quantize(self, f32, block=-1, type='sym', bits=8):
        from pyvc.tab import symtab, Tab
        from pyvc.path import cur
        from pyvc.values import bterm, mk
        r, c = f32.shape
        gran = 'tensor' if isinstance(block, int) and block == 0 else 'channel' if isinstance(block, int) and block == -1 else 'block'
        n = [cur().fresh('q').decl().name() for _ in range(3)]
        gs = group_shape(gran, r, c, block)
        raw, s, z = symtab(n[0], [r, c], np.int32), symtab(n[1], gs, np.float32), symtab(n[2], gs, np.int32)
        ok = element_ok(self.v, f32, raw, s, z, type, gran, block, bits, [r, c])

        def elem(i, j):
            for f in ok(mk(i), mk(j)).values():
                cur().assume(bterm(f))
            return raw.elem(i, j)
        return Tab([r, c], np.int32, elem), s, z

    def pack_4bits(self, Q):
        from pyvc.tab import symtab, Tab
        from pyvc.path import cur
        from pyvc.values import bterm, mk
        sh = [x for x in Q.shape]
        ph = sh[:-1] + [ceildiv(sh[-1], 2)]
        raw = symtab(cur().fresh('pack').decl().name(), ph, np.uint8)
        ok = byte_ok(self.v, Q, raw, sh)

        def elem(*i):
            cur().assume(bterm(ok(*[mk(x) for x in i])))
            return raw.elem(*i)
        return Tab(ph, np.uint8, elem)


def snapshot(g):
    return {'nodes': [[n, g.nodemap[n].op_type, list(g.nodemap[n].input), list(g.nodemap[n].output)] for n in g.nodemap],
            'initials': sorted(g.initials), 'tensors': sorted(g.tensormap), 'input': list(g.input), 'output': list(g.output),
            'consumers': {k: sorted(x) for k, x in sorted(g.consumedby.items()) if x}, 'producers': {k: list(x) for k, x in sorted(g.producedby.items())}}


def in_graph(topo, kind, gran, bits, dtype):
    def fn(v):
        import onnx_tool
        import onnx_tool.quantization as q
        import contextlib
        r, c = v.small('r', 1, 4), v.small('c', 1, 5)
        w = v.tab('w', [r, c], dtype)
        block = {'tensor': 0, 'channel': -1}.get(gran)
        if block is None:
            block = v.small('block', 1, 4)
        g = onnx_tool.Model(topo_model(topo)).graph
        before = snapshot(g)
        t = g.tensormap['w']
        t.numpy, t.shape, t.dtype = w, list(w.shape), dtype
        others = {k: g.tensormap[k].numpy for k in g.initials if k != 'w'}
        flip = topo != 'Gemm transB'
        sh = [c, r] if flip else [r, c]
        spec_t = [('uint8' if kind == 'asym' else 'int8') if bits == 8 else 'uint8' if bits == 4 else 'int32', 'float16' if bits == 4 else None,
                  'uint8' if bits in (4, 8) and kind == 'asym' else None]
        names = ['w_ot_q', 'w_ot_s'] + (['w_ot_z'] if kind == 'asym' else [])

        def run():
            with contextlib.nullcontext() if v.native else no_protos(), contextlib.nullcontext() if v.native else callees(v):
                q.graph_quantize(g, 'w', block, kind, bits)
            Q, s = (g.tensormap[k].numpy for k in ('w_ot_q', 'w_ot_s'))
            z = g.tensormap['w_ot_z'].numpy if kind == 'asym' else None
            x = w.transpose()
            out = snapshot(g)
            out['others'] = all(g.tensormap[k].numpy is a for k, a in others.items())
            out['scale shape'] = [e for e in s.shape]
            out['types'] = [str(np.dtype(a.dtype)) for a, k in zip((Q, s, z), spec_t) if k is not None]
            first = next(n for n in g.nodemap.values() if 'w_ot_q' in n.input)
            out['attrs'] = [first.attr.get(k) for k in ('OTQ_Block', 'OTQ_Type', 'OTQ_Bits')]
            m = x if flip else w
            if z is None:
                zz = np.zeros([int(e) for e in s.shape], np.int64) if v.native else ZeroAt(s)
            else:
                zz = z
            if bits == 4:           # two codes per byte
                out['shape'] = [e for e in Q.shape]
                Q = Unpacked(v, Q, kind)
            else:
                out['shape'] = [e for e in Q.shape]
            out['every element'] = check_codes(v, m, Q, s, zz, kind, gran, block, bits, sh, 2e-3 if bits == 4 else 0)
            return out

        def sub(ins):
            return [k for i in ins for k in (names if i == 'w' else [i])]
        cons = {}
        for n, op, ins, outs in before['nodes']:
            for i in dict.fromkeys(sub(ins)):
                cons.setdefault(i, []).append(n)
        exp = dict(before, nodes=[[n, op, sub(ins), outs] for n, op, ins, outs in before['nodes']],
                   initials=sorted([k for k in before['initials'] if k != 'w'] + names),
                   tensors=sorted([k for k in before['tensors'] if k != 'w'] + names), consumers={k: sorted(x) for k, x in sorted(cons.items())})
        exp['others'] = True
        exp['scale shape'] = group_shape(gran, sh[0], sh[1], block)
        exp['types'] = [k for k in spec_t if k is not None]
        exp['attrs'] = [block, kind, bits]
        exp['shape'] = [sh[0], ceildiv(sh[1], 2)] if bits == 4 else sh
        exp['every element'] = GOOD
        return Case(run, exp, False, {'topology': topo, 'type': kind, 'granularity': gran, 'bits': bits, 'block': block, 'w': w.tolist() if v.native else None})
    return fn


class ZeroAt:
    def __init__(self, s):
        self.shape = s.shape

    def __getitem__(self, i):
        return 0


class Unpacked:
    """codes of a packed array: low half of a byte first; two's complement when symmetric"""

    def __init__(self, v, P, kind):
        self.v, self.P, self.kind = v, P, kind

    def __getitem__(self, ij):
        i, j = ij
        b = self.P[i, j // 2]
        if self.v.native:
            b = int(b)
        x = ite(j % 2 == 0, b % 16, b // 16)
        return x if self.kind == 'asym' else ite(x >= 8, x - 16, x)


def untouched(case):
    """names that are not quantised leave the graph alone"""
    def fn(v):
        import onnx_tool
        import onnx_tool.quantization as q
        g = onnx_tool.Model(topo_model('several weights')).graph
        name = 'w'
        if case == 'activation':
            name = 'y0'
        elif case == 'vector':
            t = g.tensormap['w']
            t.numpy = v.tab('w', [v.small('n', 1, 4)])
        elif case == 'integers':
            t = g.tensormap['w']
            t.numpy = v.tab('w', [v.small('n', 1, 4), v.small('m', 1, 4)], np.int32)
        elif case == 'again':
            q.graph_quantize(g, 'w', -1, 'sym', 8)
            name = 'w_ot_q'
        before = snapshot(g)

        def run():
            q.graph_quantize(g, name, -1, 'sym', 8)
            return snapshot(g)
        return Case(run, before, False, {'case': case})
    return fn


def s_exact(v, s, m, n, half=0):
    """the scale maps the statistics of the group onto the code range"""
    e = m * half + (6e-8 * n if half else 0) if v.native else 0
    return Or(And(m == 0, s > 0), And(Or(s > 0, e > 0), within(v, s * n, m + e, m), within(v, m, s * n + e, m)))


def byte_ok(v, w, P, sh):
    def ok(*i):
        lo, hi = P[i] % 16 if not v.native else int(P[i]) % 16, P[i] // 16 if not v.native else int(P[i]) // 16
        a = w[i[:-1] + (i[-1] * 2,)]
        inb = i[-1] * 2 + 1 < sh[-1]
        b = w[i[:-1] + (Min(i[-1] * 2 + 1, sh[-1] - 1),)]
        if v.native:
            a, b = int(a), int(b)
        return And(lo == a % 16, hi == ite(inb, b % 16, 0), P[i] >= 0, P[i] <= 255)
    return ok


def pack(rank):
    """two codes per byte, low half first, an odd last one padded"""
    def fn(v):
        import onnx_tool.quantization as q
        sh = [v.small('n%d' % k, 1, 4) for k in range(rank)]
        w = v.tab('w', sh, np.int32, -8, 15)
        half = ceildiv(sh[-1], 2)

        def run():
            P = q.pack_4bits(w)

            ok = byte_ok(v, w, P, sh)
            return {'shape': [x for x in P.shape], 'dtype': str(np.dtype(P.dtype)), 'every byte': v.everywhere(sh[:-1] + [half], ok)}
        return Case(run, {'shape': sh[:-1] + [half], 'dtype': 'uint8', 'every byte': True}, False, {'shape': sh})
    return fn


def entries(tier):
    for kind in ('sym', 'asym'):
        for gran in ('tensor', 'channel', 'block'):
            yield Entry('quantize/%s/per %s' % (kind, gran), ['C12'], whole(kind, gran))
    for topo in TOPO:
        for kind in ('sym', 'asym'):
            for gran in ('tensor', 'channel', 'block'):
                for bits in (8, 4, 6):
                    if topo in ('MatMul', 'Gemm') or (gran == 'channel' and bits != 6):
                        yield Entry('graph/%s/%s/per %s/%d bits' % (topo, kind, gran, bits), ['C12'], in_graph(topo, kind, gran, bits, np.float32), 'listed small graph, any weight')
    for dt in (np.float16, np.float64):
        yield Entry('graph/MatMul/sym/per channel/8 bits/%s' % dt.__name__, ['C12'], in_graph('MatMul', 'sym', 'channel', 8, dt), 'listed small graph, any weight')
    for c in ('activation', 'vector', 'integers', 'again'):
        yield Entry('graph/untouched/%s' % c, ['C12'], untouched(c), 'listed small graph, any weight')
    for rank in (1, 2, 3):
        yield Entry('pack/rank %d' % rank, ['C12'], pack(rank))
    yield Entry('scalar/symmetric', ['C12'], sym_scalar)
    yield Entry('scalar/asymmetric', ['C12'], asym_scalar)
    yield Entry('scalar/saturation', ['C12'], clip_sym)
