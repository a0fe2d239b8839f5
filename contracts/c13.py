"""Serialisation: the bytes written are the field-by-field encoding of the graph / engine / memory plan, for any number of
nodes, connections, attributes, values, variables, entries and constants."""
import struct
import numpy as np
from types import SimpleNamespace as NS
from pyvc.contract import Entry, Case

LIM = 2 ** 31 - 1
DTYPES = {'float32': 1, 'float16': 3, 'int32': 0, 'int8': 5, 'uint8': 6, 'int64': 9}
KINDS = ['int', 'float', 'str', 'bytes', 'ints', 'floats', 'strs', 'bytess', 'empty'] + ['array ' + d for d in DTYPES]
LISTS = ('ints', 'floats', 'strs', 'bytess')
TAG = {'int': 0, 'float': 1, 'str': 2, 'bytes': 2}


# ------------------------------------------------------------------ the format, once for both readings
class Enc:
    """encoders: symbolic fields or bytes"""

    def __init__(self, v):
        self.native = v.native

    def int(self, x, n=4):
        if self.native:
            return int(x).to_bytes(n, 'little', signed=True)
        from pyvc.stream import Bits
        from pyvc.values import is_sym, term
        return Bits([('i', n, term(x))]) if is_sym(x) else Bits([int(x).to_bytes(n, 'little', signed=True)])

    def f32(self, x):
        if self.native:
            return struct.pack('<f', x)
        from pyvc.stream import Bits
        from pyvc.values import rterm
        return Bits([('f', 4, rterm(x))])

    def str(self, s):
        b = (s if isinstance(s, bytes) else s.encode()) + b'\0'
        if self.native:
            return b
        from pyvc.stream import Bits
        return Bits([b])

    def none(self):
        if self.native:
            return b''
        from pyvc.stream import Bits
        return Bits([])

    def raw(self, a):
        if self.native:
            return np.ascontiguousarray(a).tobytes()
        return a.tobytes()

    def rep(self, xs, f):
        """one group per element"""
        if self.native:
            return b''.join(f(x) for x in xs)
        from pyvc.stream import Bits, Rep
        import z3
        return Bits([Rep(xs.n, lambda j: [(z3.BoolVal(True), f(xs.at(j)).items)])])

    def n(self, xs):
        return len(xs) if self.native else xs.n

    def counted(self, xs, f, n=4):
        return self.int(self.n(xs), n) + self.rep(xs, f)

    def array(self, a):
        return self.int(DTYPES[str(np.dtype(a.dtype))]) + self.counted(a.shape, self.int) + self.raw(a)

    def value(self, kind, x):
        return {'int': self.int, 'float': self.f32, 'str': self.str, 'bytes': self.str}.get(kind, self.array)(x)

    def attr(self, kind, x):
        if kind == 'empty':
            return self.int(0) + self.int(0)
        if kind in LISTS:
            k = kind[:-1]
            if self.native:
                tag = self.int(TAG[k] if len(x) else 0)
            else:
                from spec.sym import ite
                tag = self.int(ite(x.n > 0, TAG[k], 0))
            return self.int(self.n(x)) + tag + self.rep(x, lambda e: self.value(k, e))
        return self.int(1) + self.int(TAG.get(kind, 10)) + self.value(kind, x)

    def graph(self, g, kinds):
        def attr(e):
            return self.str(e[0]) + self.attr(kinds(e[1]) if self.native else kinds, e[1])

        def node(e):
            name, nd = e
            return (self.str(name) + self.str(nd.op_type) + self.counted(nd.input, self.str) + self.counted(nd.output, self.str)
                    + self.counted(self.items(nd.attr), attr))
        return self.counted(self.items(g.nodemap), node) + self.counted(g.initials, lambda n: self.str(n) + self.array(g.tensormap[n].numpy))

    def items(self, d):
        return list(d.items()) if self.native else d.items()

    def keys(self, d):
        return list(d) if self.native else d.keys()

    def entry(self, d):
        """one extent: a number or the name of a variable"""
        if isinstance(d, str):
            return self.int(2) + self.str(d)
        return self.int(0) + self.int(d)

    def engine(self, e):
        def expr(x):
            name, (src, ex) = x
            return (self.str(name) + self.str(src) + self.f32(ex.alpha) + self.f32(ex.beta) + self.int(ex.factor) + self.int(ex.truncmode))
        return (self.counted(self.keys(e.variables), self.str)
                + self.counted(self.items(e.tensor_desc), lambda x: self.str(x[0]) + self.counted(x[1], self.entry))
                + self.counted(self.items(e.tensor_epxr), expr))

    def memory(self, mem, shapes):
        return (self.int(mem[1], 8) + self.counted(self.items(mem[0]), lambda x: self.str(x[0]) + self.int(x[1][0], 8) + self.int(x[1][1], 8), 8)
                + self.counted(self.items(shapes), lambda x: self.str(x[0]) + self.int(x[1], 8), 8))


# ------------------------------------------------------------------ symbolic graphs
class Sym:
    """values of an arbitrary graph: functions of the position they stand at"""

    def __init__(self, v):
        self.v = v

    def num(self, base, idx, lo, hi):
        import z3
        from pyvc.path import cur
        from pyvc.values import SymInt
        from pyvc.seq import T
        f = z3.Function(base, *([z3.IntSort()] * (len(idx) + 1)))
        t = f(*[z3.simplify(T(i)) for i in idx]) if idx else z3.Int(base)
        cur().assume(z3.And(t >= lo, t <= hi))
        return SymInt(t)

    def real(self, base, idx):
        import z3
        from pyvc.values import Real
        from pyvc.seq import T
        f = z3.Function(base, *([z3.IntSort()] * len(idx) + [z3.RealSort()]))
        return Real(f(*[z3.simplify(T(i)) for i in idx]))

    def seq(self, base, idx, elem):
        from pyvc.seq import SymSeq
        return SymSeq(self.num('n_' + base, idx, 0, LIM), elem)

    def strs(self, base, idx=()):
        from pyvc.stream import text
        return self.seq(base, idx, lambda j: text(base, *idx, j))

    def dict(self, base, idx, val):
        from pyvc.stream import SymDict, text
        return SymDict(self.num('n_' + base, idx, 0, LIM), lambda j: text(base, *idx, j), val)

    def array(self, base, idx, dt):
        from pyvc.env import SymArr
        from pyvc.stream import Bits, text
        shape = self.seq(base + '_dim', idx, lambda j: self.num(base + '_dims', list(idx) + [j], 0, LIM))
        a = SymArr(shape, dt)
        a.shape = shape
        tok = text(base + '_data', *idx)

        class Arr(SymArr):
            def tobytes(self):
                return Bits([('raw', None, tok)])
        a.__class__ = Arr
        return a

    def value(self, kind, idx):
        from pyvc.stream import text
        if kind == 'int':
            return self.num('attr_int', idx, -LIM - 1, LIM)
        if kind == 'float':
            return self.real('attr_float', idx)
        if kind == 'str':
            return text('attr_str', *idx)
        if kind == 'bytes':
            return text('attr_bytes', *idx).encode()
        if kind == 'empty':
            return []
        if kind.startswith('array '):
            return self.array('attr_arr', idx, kind[6:])
        return self.seq('attr_list', idx, lambda j: self.value(kind[:-1], list(idx) + [j]))

    def graph(self, kind, dt):
        from pyvc.stream import text, Lookup

        def node(i):
            return NS(op_type=text('op', i), input=self.strs('in', [i]), output=self.strs('out', [i]),
                      attr=self.dict('attr', [i], lambda j: self.value(kind, [i, j])))
        where = {}

        def init(j):
            t = text('init', j)
            where[t] = j
            return t
        return NS(nodemap=self.dict('node', [], node), initials=self.seq('init', [], init),
                  tensormap=Lookup(lambda k: NS(numpy=self.array('const', [where[k]], dt))))


def rand_value(r, kind):
    if kind == 'int':
        return int(r.choice([0, 1, -1, 127, -128, 255, 2 ** 31 - 1, -2 ** 31, int(r.integers(-10 ** 6, 10 ** 6))]))
    if kind == 'float':
        return float(np.float32(r.normal()))
    if kind == 'str':
        return rand_text(r)
    if kind == 'bytes':
        return rand_text(r).encode()
    if kind == 'empty':
        return []
    if kind.startswith('array '):
        sh = [int(r.integers(0, 4)) for _ in range(r.integers(0, 4))]
        a = np.asarray(r.normal(size=sh) * 50).astype(kind[6:])
        return a.T if r.random() < .3 else a
    return [rand_value(r, kind[:-1]) for _ in range(r.integers(1, 4))]


def rand_text(r):
    return ''.join(r.choice(list('aB_/:0. é')) for _ in range(r.integers(0, 30)))


def names(r, n):
    return ['%s%d' % (rand_text(r), k) for k in range(n)]


def kind_of(x):
    if isinstance(x, np.ndarray):
        return 'array ' + str(x.dtype)
    if isinstance(x, list):
        return 'empty' if not x else kind_of(x[0]) + 's'
    return {int: 'int', float: 'float', str: 'str', bytes: 'bytes'}[type(x)]


def rand_graph(r):
    def node():
        return NS(op_type=rand_text(r), input=names(r, r.integers(0, 4)), output=names(r, r.integers(0, 3)),
                  attr={k: rand_value(r, KINDS[r.integers(0, len(KINDS))]) for k in names(r, r.integers(0, 4))})
    ini = names(r, r.integers(0, 4))
    return NS(nodemap={k: node() for k in names(r, r.integers(0, 4))}, initials=ini,
              tensormap={k: NS(numpy=rand_value(r, 'array ' + list(DTYPES)[r.integers(0, 6)])) for k in ini})


def written(v, call):
    """bytes that reach the file"""
    import onnx_tool.serialization as S
    if v.native:
        import os, tempfile
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'out.bin')
            call(S, f)
            return open(f, 'rb').read().hex()
    from pyvc.stream import SinkFile, Bits
    files = []

    def fake(path, mode='r', *a, **k):
        assert 'w' in mode and 'b' in mode
        files.append(SinkFile())
        return files[-1]
    S.open = fake
    try:
        call(S, 'out.bin')
    finally:
        del S.open
    assert len(files) == 1
    return Bits(files[0].out.items)


def out(v, x):
    return x.hex() if v.native else x


def rng_of(v):
    return np.random.default_rng(v.int('seed', 0, 10 ** 9))


def graph(kind, dt):
    def fn(v):
        g = rand_graph(rng_of(v)) if v.native else Sym(v).graph(kind, dt)
        e = Enc(v)
        exp = out(v, e.graph(g, kind_of if v.native else kind))
        return Case(lambda: written(v, lambda S, f: S.serialize_graph(g, f)), exp, False, {'attribute': kind, 'constant': dt})
    return fn


def engine(entry):
    def fn(v):
        if v.native:
            r = rng_of(v)
            vs = names(r, r.integers(0, 4))
            e = NS(variables={k: None for k in vs},
                   tensor_desc={k: [rand_value(r, 'int') if r.random() < .5 or not vs else vs[r.integers(0, len(vs))] for _ in range(r.integers(0, 5))] for k in names(r, r.integers(0, 4))},
                   tensor_epxr={k: (rand_text(r), NS(alpha=rand_value(r, 'float'), beta=rand_value(r, 'float'), factor=int(r.integers(0, 2)), truncmode=int(r.integers(0, 2)))) for k in names(r, r.integers(0, 4))})
        else:
            s = Sym(v)
            from pyvc.stream import text

            def expr(i):
                return (text('src', i), NS(alpha=s.real('alpha', [i]), beta=s.real('beta', [i]), factor=s.num('factor', [i], 0, 1), truncmode=s.num('trunc', [i], 0, 1)))
            e = NS(variables=s.dict('var', [], lambda i: None), tensor_epxr=s.dict('expr', [], expr),
                   tensor_desc=s.dict('desc', [], lambda i: s.seq('desc_n', [i], lambda j: s.num('extent', [i, j], -1, LIM) if entry == 'number' else text('dim', i, j))))
        exp = out(v, Enc(v).engine(e))
        return Case(lambda: written(v, lambda S, f: S.serialize_shape_engine(e, f)), exp, False, {'entry': entry})
    return fn


def memory(v):
    if v.native:
        r = rng_of(v)
        big = lambda: int(r.integers(0, 2 ** 40))
        mem = ({k: [big(), big()] for k in names(r, r.integers(0, 5))}, big())
        shapes = {k: big() for k in names(r, r.integers(0, 4))}
    else:
        s = Sym(v)
        big = lambda b, i: s.num(b, i, 0, 2 ** 62)
        mem = (s.dict('block', [], lambda i: [big('offset', [i]), big('size', [i])]), big('total', []))
        shapes = s.dict('maxvar', [], lambda i: big('maxval', [i]))
    exp = out(v, Enc(v).memory(mem, shapes))
    return Case(lambda: written(v, lambda S, f: S.serialize_memory_compression(mem, shapes, f)), exp, False, {})


def overflow(v):
    """a number that does not fit its field is refused"""
    x = v.int('x', -2 ** 40 if v.native else None, 2 ** 40 if v.native else None)
    if v.native:
        g = NS(nodemap={'n': NS(op_type='A', input=[], output=[], attr={'k': x})}, initials=[], tensormap={})
        e = Enc(v)
        bad = not -LIM - 1 <= x <= LIM
        exp = None if bad else out(v, e.graph(g, kind_of))
    else:
        from pyvc.stream import SymDict, Bits, text
        from pyvc.seq import SymSeq
        from spec.sym import Or
        bad = Or(x < -LIM - 1, x > LIM)
        g = NS(nodemap={'n': NS(op_type='A', input=[], output=[], attr={'k': x})}, initials=[], tensormap={})
        e = Enc(v)
        exp = Bits((e.int(1) + e.str('n') + e.str('A') + e.int(0) + e.int(0) + e.int(1) + e.str('k') + e.int(1) + e.int(0) + e.int(x) + e.int(0)).items)
    return Case(lambda: written(v, lambda S, f: S.serialize_graph(g, f)), exp, bad, {'x': x})


def bad_dtype(dt):
    def fn(v):
        good = v.bool('supported')
        d = 'int8' if good else dt
        if v.native:
            a = np.ones((2,), d)
        else:
            a = Sym(v).array('const', [0], d)
        g = NS(nodemap={}, initials=['c'], tensormap={'c': NS(numpy=a)})
        e = Enc(v)
        exp = out(v, e.int(0) + e.int(1) + e.str('c') + e.array(a)) if good else None
        return Case(lambda: written(v, lambda S, f: S.serialize_graph(g, f)), exp, not good, {'dtype': d})
    return fn


def entries(tier):
    for kind in KINDS:
        yield Entry('graph/attribute %s' % kind, ['C13'], graph(kind, 'float32'))
    for dt in DTYPES:
        yield Entry('graph/constant %s' % dt, ['C13'], graph('int', dt))
    for e in ('number', 'name'):
        yield Entry('shape engine/extent %s' % e, ['C13'], engine(e))
    yield Entry('memory plan', ['C13'], memory)
    yield Entry('graph/number out of range', ['C13'], overflow)
    for dt in ('float64', 'int16', 'bool'):
        yield Entry('graph/unsupported %s' % dt, ['C13'], bad_dtype(dt))
