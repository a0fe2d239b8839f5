"""Serialisation: files written from loaded models, regressed engines and memory plans, read back by an independent decoder."""
import os, struct
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh
from .opgen import R, pick
from .core import quiet
from . import models

NP = {0: np.int32, 1: np.float32, 3: np.float16, 5: np.int8, 6: np.uint8, 9: np.int64}


class Reader:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise ValueError('%d bytes wanted at %d of %d' % (n, self.p, len(self.b)))
        self.p += n
        return self.b[self.p - n:self.p]

    def int(self, n=4):
        return int.from_bytes(self.take(n), 'little', signed=True)

    def float(self):
        return struct.unpack('<f', self.take(4))[0]

    def str(self):
        e = self.b.index(b'\0', self.p)
        s = self.b[self.p:e].decode()
        self.p = e + 1
        return s

    def list(self, f, n=4):
        return [f() for _ in range(self.int(n))]

    def array(self):
        dt = np.dtype(NP[self.int()])
        sh = self.list(self.int)
        return np.frombuffer(self.take(int(np.prod(sh, dtype=np.int64)) * dt.itemsize), dt).reshape(sh)

    def attr(self):
        n, t = self.int(), self.int()
        return [t, [{0: self.int, 1: self.float, 2: self.str, 10: self.array}[t]() for _ in range(n)]]

    def done(self):
        if self.p != len(self.b):
            raise ValueError('%d bytes follow the last field' % (len(self.b) - self.p))

    def graph(self):
        nodes = [(self.str(), self.str(), self.list(self.str), self.list(self.str), [(self.str(), self.attr()) for _ in range(self.int())])
                 for _ in range(self.int())]
        ini = [(self.str(), self.array()) for _ in range(self.int())]
        self.done()
        return nodes, ini

    def engine(self):
        def entry():
            t = self.int()
            return {0: self.int, 2: self.str}[t]()
        vs = self.list(self.str)
        desc = [(self.str(), self.list(entry)) for _ in range(self.int())]
        ex = [(self.str(), self.str(), self.float(), self.float(), self.int(), self.int()) for _ in range(self.int())]
        self.done()
        return vs, desc, ex

    def memory(self):
        total = self.int(8)
        m = [(self.str(), self.int(8), self.int(8)) for _ in range(self.int(8))]
        mx = [(self.str(), self.int(8)) for _ in range(self.int(8))]
        self.done()
        return total, m, mx


def want_attr(x):
    """[tag, values] of an attribute"""
    xs = list(x) if isinstance(x, (list, tuple)) else [x]
    xs = [nh.to_array(e) if isinstance(e, onnx.TensorProto) else e for e in xs]
    tag = 0 if not xs else 10 if isinstance(xs[0], np.ndarray) else 2 if isinstance(xs[0], (str, bytes)) else 1 if isinstance(xs[0], float) else 0
    f = {2: lambda e: e.decode() if isinstance(e, bytes) else e, 1: lambda e: float(np.float32(e)), 0: int, 10: lambda e: e}[tag]
    return [tag, [f(e) for e in xs]]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == np.ascontiguousarray(b).tobytes()
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def attrs(rng):
    at = {}
    for k in range(R(rng, 0, 4)):
        t = R(rng, 0, 7)
        at['a%d' % k] = [lambda: R(rng, -9, 9), lambda: float(np.float32(rng.normal())), lambda: pick(rng, ['', 'abc', 'é/:']),
                         lambda: [R(rng, -5, 5) for _ in range(R(rng, 1, 4))], lambda: [1.5, -2.25][:R(rng, 1, 2)],
                         lambda: ['x', 'yé', ''][:R(rng, 1, 3)],
                         lambda: nh.from_array(arr(rng), 't'), lambda: [2 ** 31 - 1, -2 ** 31][:R(rng, 1, 2)]][t]()
    return at


def arr(rng):
    sh = tuple(R(rng, 0, 3) for _ in range(R(rng, 0, 3)))
    return np.asarray(rng.normal(size=sh) * 40).astype(pick(rng, [np.float32, np.float16, np.int32, np.int8, np.uint8, np.int64]))


def rand(rng):
    """graph with every attribute and constant kind"""
    g = models.dag(rng)
    for nd in g.node:
        del nd.attribute[:]
        for k, x in attrs(rng).items():
            nd.attribute.append(oh.make_attribute(k, x))
    names = [i.name for i in g.initializer]
    del g.initializer[:]
    g.initializer.extend(nh.from_array(arr(rng), n) for n in names)
    return oh.make_model(g, opset_imports=[oh.make_opsetid('', 13)])


def large(rng):
    """counts, extents and names beyond what fits one (two) bytes"""
    n = pick(rng, [1, 130, 260, 700])
    k = pick(rng, [1, 129, 255, 256, 300])
    nodes = [oh.make_node('Relu', ['x'], ['t0'], 'f' * pick(rng, [1, 200]) + '\u00e9\u6f22'[:R(rng, 0, 2)])]
    nodes += [oh.make_node('Relu', ['t%d' % i], ['t%d' % (i + 1)], 'n%d' % i) for i in range(n)]
    nodes.append(oh.make_node('Concat', ['t%d' % n] * k + ['w'], ['y'], 'last', axis=0, ks=[int(i) for i in rng.integers(-2 ** 31, 2 ** 31, pick(rng, [1, 128, 300, 66000]))]))
    ini = [nh.from_array(rng.integers(-9, 9, (pick(rng, [1, 128, 256, 70000]), 2)).astype(np.int8), 'w')]
    m = pick(rng, [0, 130, 257])
    if m:
        nodes.append(oh.make_node('Sum', ['y'] + ['c%d' % i for i in range(m)], ['z'], 'sum'))
        ini += [nh.from_array(np.float32([i]), 'c%d' % i) for i in range(m)]
    g = oh.make_graph(nodes, 'g', [oh.make_tensor_value_info('x', 1, [2, 2])], [oh.make_tensor_value_info(nodes[-1].output[0], 1, None)], ini)
    return oh.make_model(g, opset_imports=[oh.make_opsetid('', 13)])


def dyn(rng):
    """(model, description, ranges) whose extents depend on declared variables"""
    nv = R(rng, 1, 2)
    xd = ['N' if nv < 2 else 'N', R(rng, 2, 4), 8 if nv < 2 else 'M']
    nodes = [oh.make_node('Conv', ['x', 'w'], ['c'], name='conv', strides=[pick(rng, [1, 2])], pads=[1, 1]),
             oh.make_node(pick(rng, ['Relu', 'Sigmoid']), ['c'], ['r'], name='act'),
             oh.make_node('Concat', ['r', 'r'], ['k'], name='cat', axis=R(rng, 0, 2))]
    g = oh.make_graph(nodes, 'g', [oh.make_tensor_value_info('x', 1, xd)], [oh.make_tensor_value_info('k', 1, None)],
                      [nh.from_array(np.ones((3, xd[1], 3), np.float32), 'w')])
    return oh.make_model(g, opset_imports=[oh.make_opsetid('', 13)]), {'x': list(xd)}, dict([('N', (1, 4)), ('M', (8, 64))][:nv])


def run(ctx):
    import onnx_tool
    import onnx_tool.serialization as S
    rng = ctx.rng
    f = os.path.join(ctx.tmp, 'o.bin')

    def read(how):
        return getattr(Reader(open(f, 'rb').read()), how)()

    with ctx.section('graph'):
        for k in range(ctx.n(250, 4000)):
            if ctx.timeup():
                break
            m = large(rng) if k % 20 == 3 else rand(rng) if rng.random() < .7 else models.model(rng, 2, 8)[0]
            rep = models.text(m)
            g = models.load(m)
            if any(g.tensormap[n].numpy.dtype not in [np.dtype(t) for t in NP.values()] for n in g.initials):
                continue
            ctx.eval(('g', rep), rep)
            try:
                S.serialize_graph(g, f)
                nodes, ini = read('graph')
            except Exception as e:
                ctx.fail('graph/error', '%r' % e, rep)
                continue
            wn = [(n, d.op_type, list(d.input), list(d.output), [(k, want_attr(x)) for k, x in d.attr.items()]) for n, d in g.nodemap.items()]
            wi = [(n, g.tensormap[n].numpy) for n in g.initials]
            if not same(nodes, wn):
                bad = next((x for x in zip(nodes, wn) if not same(*x)), (len(nodes), len(wn)))
                ctx.fail('graph/nodes', 'decoded %r, graph has %r' % bad, rep)
            if not same(ini, wi):
                bad = next((x for x in zip(ini, wi) if not same(*x)), (len(ini), len(wi)))
                ctx.fail('graph/constants', 'decoded %r, graph has %r' % bad, rep)
    with ctx.section('engine'):
        for _ in range(ctx.n(12, 150)):
            if ctx.timeup():
                break
            m, desc, rg = dyn(rng)
            rep = models.text(m)
            g = models.load(m)
            try:
                with quiet():
                    e = g.shape_regress({k: list(x) for k, x in desc.items()}, {k: list(x) for k, x in rg.items()})
            except Exception:
                continue            # regression itself is judged elsewhere
            ctx.eval(('e', rep), rep)
            try:
                S.serialize_shape_engine(e, f)
                vs, ds, ex = read('engine')
            except Exception as er:
                ctx.fail('engine/error', '%r' % er, rep)
                continue
            if vs != list(e.variables):
                ctx.fail('engine/variables', '%s, engine has %s' % (vs, list(e.variables)), rep)
            if not same(ds, [(k, list(x)) for k, x in e.tensor_desc.items()]):
                ctx.fail('engine/descriptions', '%s, engine has %s' % (ds, e.tensor_desc), rep)
            we = [(k, s, float(np.float32(x.alpha)), float(np.float32(x.beta)), int(x.factor), int(x.truncmode)) for k, (s, x) in e.tensor_epxr.items()]
            if not same(ex, we):
                ctx.fail('engine/expressions', '%s, engine has %s' % (ex, we), rep)
    with ctx.section('memory'):
        for k in range(ctx.n(60, 800)):
            if ctx.timeup():
                break
            if k % 2:
                m, feeds, _, _ = models.model(rng, 2, 8)
                g = models.load(m)
                try:
                    with quiet():
                        g.shape_infer(dict(feeds))
                        mem = g.compress_memory()
                except Exception:
                    continue
            else:
                big = [0, 63, 64, 2 ** 31, 2 ** 32 + 5, 2 ** 40]
                mem = ({'t%d' % i: [pick(rng, big), pick(rng, big)] for i in range(R(rng, 0, 5) if k % 10 else 300)}, pick(rng, big))
            mx = {'v%d' % i: R(rng, 0, 2 ** 33) for i in range(R(rng, 0, 3) if k % 12 else 130)}
            ctx.eval(('m', k, str(mem)), mem)
            try:
                S.serialize_memory_compression(mem, mx, f)
                t, ms, xs = read('memory')
            except Exception as e:
                ctx.fail('memory/error', '%r' % e, str(mem))
                continue
            if t != mem[1] or ms != [(n, b[0], b[1]) for n, b in mem[0].items()] or xs != list(mx.items()):
                ctx.fail('memory/blocks', 'decoded %s %s %s' % (t, ms, xs), str((mem, mx)))
