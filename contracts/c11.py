"""Loading and saving: constants of every type, storage field, rank and extent; declared shapes; attributes of every operator;
every wiring of small graphs."""
import contextlib
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh, TensorProto as TP
from pyvc.contract import Entry, Case, FakeAttr, FakeNode
from spec.sym import And, Or, Not, ite, prod
from .smallgraph import Wiring, choose

TYPES = {'float32': TP.FLOAT, 'float64': TP.DOUBLE, 'float16': TP.FLOAT16, 'int32': TP.INT32, 'int16': TP.INT16, 'int64': TP.INT64, 'int8': TP.INT8, 'uint8': TP.UINT8,
         'uint16': TP.UINT16, 'uint32': TP.UINT32, 'uint64': TP.UINT64, 'bool': TP.BOOL, 'bytes': TP.STRING}
FIELDS = ('float_data', 'double_data', 'int32_data', 'int64_data', 'string_data', 'uint64_data')
FIELD = {'float32': 'float_data', 'float64': 'double_data', 'int64': 'int64_data', 'uint32': 'uint64_data', 'uint64': 'uint64_data', 'bytes': 'string_data'}
STORED = {'float_data': np.float32, 'double_data': np.float64, 'int32_data': np.int32, 'int64_data': np.int64, 'string_data': np.bytes_, 'uint64_data': np.uint64}
RANGE = {'float16': (0, 65535), 'bool': (0, 1), 'uint32': (0, 2 ** 32 - 1)}


def np_type(d):
    return np.dtype(np.bytes_ if d == 'bytes' else d)


# ------------------------------------------------------------------ protobuf messages that can hold terms (proof reading)
class _TPMeta(type):
    def __getattr__(cls, n):
        return getattr(TP, n)

    def __instancecheck__(cls, x):
        return type(x) is FakeTensor or isinstance(x, TP)


class FakeTensor(metaclass=_TPMeta):
    def __init__(self, name='', data_type=0):
        from pyvc.flat import FlatSeq
        self.name, self.data_type, self.dims, self.raw_data = name, data_type, [], b''
        for f in FIELDS:
            setattr(self, f, FlatSeq(0, None, STORED[f]))

    def HasField(self, n):
        return n == 'raw_data' and self.raw_data is not None and not isinstance(self.raw_data, bytes)


class _VIMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is FakeValueInfo or isinstance(x, onnx_vi)


onnx_vi = onnx.ValueInfoProto


class FakeDim:
    def __init__(self, v):
        self.kind = None if v is None else 'dim_param' if isinstance(v, str) else 'dim_value'
        if v is not None:
            setattr(self, self.kind, v)

    def HasField(self, n):
        return n == self.kind

    def WhichOneof(self, n):
        return self.kind


class Rec:
    def __init__(self, **k):
        self.__dict__.update(k)

    def HasField(self, n):
        return n in self.__dict__


class TensorType:
    def HasField(self, n):
        return self.declared if n == 'shape' else True


class FakeValueInfo(metaclass=_VIMeta):
    def __init__(self, name, elem, dims):
        self.name = name
        t = TensorType()
        t.elem_type, t.declared, t.shape = elem, dims is not None, Rec(dim=[FakeDim(d) for d in dims or []])
        self.type = Rec(tensor_type=t)


def as_seq(x):
    from pyvc.flat import FlatSeq, Scalar, Flat
    if isinstance(x, Flat):
        x = x.flatten().tolist()
    if isinstance(x, (list, tuple)) and len(x) == 1 and isinstance(x[0], Scalar):
        return FlatSeq(1, lambda i, s=x[0]: s.v, x[0].dtype)
    return x


def fake_make_tensor(name, data_type, dims, vals, raw=False):
    """onnx.helper.make_tensor on symbolic data: stores the values in the field of the type"""
    from pyvc.flat import FlatSeq, RawBytes, convert, reinterpret
    from pyvc.path import Unsupported
    t = FakeTensor(name, data_type)
    d = next((k for k, x in TYPES.items() if x == data_type), None)
    if d is None:
        raise Unsupported('element type %s' % data_type)
    dt = np_type(d)
    dims = list(dims)
    t.dims = dims
    if raw:
        if d == 'bytes':
            raise TypeError('Can not use raw_data to store string type.')
        if not isinstance(vals, RawBytes):
            raise Unsupported('raw data from %s' % type(vals).__name__)
        if bool(vals.n != prod(dims) * dt.itemsize):
            raise ValueError('Raw data size does not match tensor\'s size.')
        t.raw_data = vals
        return t
    vals = as_seq(vals)
    if not isinstance(vals, FlatSeq):
        raise Unsupported('values from %s' % type(vals).__name__)
    if bool(vals.n != prod(dims)):
        raise ValueError('Number of values does not match tensor\'s size.')
    src, f = vals.eltype, FIELD.get(d, 'int32_data')
    if d == 'float16':
        g = lambda i: reinterpret(np.float16, np.uint16, convert(src, np.float16, vals.at(i)))
    elif f == 'string_data':
        if src.kind != 'S':
            raise TypeError('strings expected')
        g = vals.at
    else:
        g = lambda i: convert(src, dt, vals.at(i))
    setattr(t, f, FlatSeq(vals.n, g, STORED[f]))
    return t


def fake_make_value_info(name, elem, shape, *a, **k):
    return FakeValueInfo(name, elem, None if shape is None else list(shape))


@contextlib.contextmanager
def fakes(v):
    """the protobuf constructors accept terms; the sparsity record (C17) is left out"""
    if v.native:
        yield
        return
    import onnx_tool.tensor as T
    put = {(onnx, 'TensorProto'): FakeTensor, (onnx, 'ValueInfoProto'): FakeValueInfo, (onnx.helper, 'make_tensor'): fake_make_tensor,
           (onnx.helper, 'make_tensor_value_info'): fake_make_value_info, (T.Tensor, 'sparsity_search'): lambda s, *a, **k: setattr(s, 'sparsity', None)}
    old = {k: getattr(*k) for k in put}
    for k, x in put.items():
        setattr(k[0], k[1], x)
    try:
        yield
    finally:
        for k, x in old.items():
            setattr(k[0], k[1], x)


# ------------------------------------------------------------------ constants
def read(v, p, d):
    """element function of a stored tensor: the ONNX definition of its data"""
    if v.native:
        if d == 'bytes':
            a = list(p.string_data)
        else:
            a = onnx.numpy_helper.to_array(p).reshape(-1)
        return lambda i: a[int(i)]
    from pyvc.flat import reinterpret, RawBytes, FileBytes
    from pyvc.values import term
    dt = np_type(d)
    if isinstance(p.raw_data, FileBytes):
        return lambda i: p.raw_data.decode(dt, term(i))
    if isinstance(p.raw_data, RawBytes):
        return lambda i: reinterpret(p.raw_data.dtype, dt, p.raw_data.elem(term(i)))
    s = getattr(p, FIELD.get(d, 'int32_data'))
    if d == 'float16':
        return lambda i: reinterpret(np.uint16, np.float16, s.at(i))
    return s.at


def stored(v, d, raw, dims):
    n = prod(dims) if isinstance(dims, (list, tuple)) else None
    if n is None:
        from pyvc.seq import fold
        n = int(np.prod(dims, dtype=int)) if v.native else fold('prod', dims)
    dt = np_type(d)
    f = FIELD.get(d, 'int32_data')
    if v.native:
        p = TP()
        p.name, p.data_type = 'w', TYPES[d]
        p.dims.extend([int(e) for e in dims])
        if raw:
            p.raw_data = np.array(v.flat('data', n, dt), dt).tobytes()
        else:
            lo, hi = RANGE.get(d, (None, None))
            if dt.kind in 'iu':
                lo, hi = int(np.iinfo(dt).min), int(np.iinfo(dt).max)
            if f == 'int64_data':
                lo = hi = None
            x = v.flat('data', n, STORED[f], lo, hi)
            getattr(p, f).extend([e.encode('latin1') if isinstance(e, str) else e for e in x])
        return p, n
    from pyvc.flat import FileBytes
    p = FakeTensor('w', TYPES[d])
    p.dims = dims.copy() if not isinstance(dims, list) else list(dims)
    if raw:
        p.raw_data = FileBytes('data', dt, n)
    else:
        lo, hi = RANGE.get(d, (None, None))
        if f == 'int32_data' and d not in RANGE:
            lo, hi = int(np.iinfo(dt).min), int(np.iinfo(dt).max)
        setattr(p, f, v.flat('data', n, STORED[f], lo, hi))
    return p, n


def element(v, a, d):
    """element of a loaded array, in row-major order"""
    if v.native:
        b = a.reshape(-1)
        return lambda i: b[int(i)]
    return a.at


def same(v, d, a, b):
    if v.native:
        if d == 'bytes':
            return bytes(a) == bytes(b)
        a, b = np.asarray(a), np.asarray(b)
        return a.dtype == b.dtype and (a.tobytes() == b.tobytes() or bool(a != a and b != b))
    return a == b


def everywhere(v, n, f):
    r = v.everywhere([n], f)
    return True if v.native and r == {} else r


def dtname(a):
    t = np.dtype(a if isinstance(a, type) else a.dtype)
    return 'bytes' if t.kind == 'S' else str(t)


def dims_of(v, rank):
    return v.seq('dims', 0, 4) if rank is None else v.shape('d', rank, 0)


def load(d, raw, rank):
    def fn(v):
        from onnx_tool.tensor import Tensor
        dims = dims_of(v, rank)
        p, n = stored(v, d, raw, dims)
        if raw:
            v.require(n > 0)
        want = read(v, p, d)

        def run():
            with fakes(v):
                t = Tensor(p)
                got = element(v, t.numpy, d)
                r = {'name': t.name, 'shape': t.shape, 'extents': t.get_shape(), 'type': dtname(t.numpy), 'declared type': dtname(t.dtype), 'array shape': seq_or_list(t.numpy.shape),
                     'constant': t.type == 0, 'elements': everywhere(v, n, lambda i: same(v, d, got(i), want(i)))}
                return r
        return Case(run, {'name': 'w', 'shape': dims, 'extents': dims, 'type': d, 'declared type': d, 'array shape': dims, 'constant': True, 'elements': True}, False,
                    {'type': d, 'raw': raw, 'dims': dims})
    return fn


def seq_or_list(x):
    return list(x) if isinstance(x, tuple) else x


def array(v, d, dims):
    n = prod(dims)
    x = v.flat('data', n, np_type(d))
    if v.native:
        if d == 'bytes':
            return np.array([e.encode('latin1') if isinstance(e, str) else e for e in x] or [b''][:n], np.bytes_).reshape([int(e) for e in dims]), n
        return np.array(x, np_type(d)).reshape([int(e) for e in dims]), n
    from pyvc.flat import Flat
    return Flat(dims, np_type(d), n, x.at), n


def save(d, rank, how):
    """an array made a constant is stored with its shape, type and values, and loads as it was"""
    def fn(v):
        from onnx_tool.tensor import Tensor, create_initial_Tensor
        dims = v.shape('d', rank, 0)
        a, n = array(v, d, dims)
        want = element(v, a, d)

        def run():
            with fakes(v):
                if how == 'created':
                    t = create_initial_Tensor('w', a)
                    p = t.proto
                else:
                    t = Tensor('w')
                    if how == 'updated':
                        t.update_proto(a)
                        p = t.proto
                    else:
                        t.update_tensor(a)
                        p = t.make_tensor_proto()
                got = read(v, p, d)
                u = Tensor(p)
                back = element(v, u.numpy, d)
                return {'name': p.name, 'type': p.data_type, 'dims': list(p.dims), 'elements': everywhere(v, n, lambda i: same(v, d, got(i), want(i))),
                        'again': [u.name, list(u.get_shape()), dtname(u.numpy)], 'elements again': everywhere(v, n, lambda i: same(v, d, back(i), want(i))),
                        'kept': [list(t.get_shape()), dtname(t.dtype), t.numpy is a]}
        return Case(run, {'name': 'w', 'type': TYPES[d], 'dims': dims, 'elements': True, 'again': ['w', dims, d], 'elements again': True, 'kept': [dims, d, True]}, False,
                    {'type': d, 'dims': dims})
    return fn


# ------------------------------------------------------------------ declarations
def declared(d, kinds):
    """declared inputs and outputs: numbers, names and unknown extents"""
    def fn(v):
        from onnx_tool.tensor import Tensor
        dims = [v.int('d%d' % k, 0) if x == 'i' else 'batch%d' % k if x == 'n' else None for k, x in enumerate(kinds)]
        exp = [-1 if e is None else e for e in dims]
        if v.native:
            p = oh.make_tensor_value_info('x', TYPES[d], dims)
        else:
            p = FakeValueInfo('x', TYPES[d], dims)

        def run():
            with fakes(v):
                t = Tensor(p)
                q = t.make_value_proto()
                tt = q.type.tensor_type
                out = None
                if tt.HasField('shape'):
                    out = [e.dim_value if e.HasField('dim_value') else e.dim_param if e.HasField('dim_param') else None for e in tt.shape.dim]
                u = Tensor(q)
                return {'name': t.name, 'shape': t.get_shape(), 'type': dtname(t.dtype), 'saved': [q.name, tt.elem_type, out if 'u' not in kinds else None], 'constant': t.type == 0,
                        'again': [u.name, [e if x != 'u' else -1 for e, x in zip(u.get_shape(), kinds)], dtname(u.dtype)]}
        return Case(run, {'name': 'x', 'shape': exp, 'type': d, 'saved': ['x', TYPES[d], None if 'u' in kinds else dims], 'constant': False, 'again': ['x', exp, d]}, False,
                    {'type': d, 'dims': dims})
    return fn


# ------------------------------------------------------------------ attributes
class Named:
    pass


def infer(name, x):
    """onnx.helper.make_attribute: the kind of an attribute from its value"""
    from pyvc.values import is_sym, SymInt, Real, Rat
    import numbers
    if isinstance(x, (SymInt,)) or (isinstance(x, numbers.Integral)):
        return 'INT', x
    if isinstance(x, (Real, Rat)) or isinstance(x, numbers.Real):
        return 'FLOAT', x
    if isinstance(x, (str, bytes)):
        return 'STRING', x.encode() if isinstance(x, str) else x
    if isinstance(x, (list, tuple)):
        if not x:
            raise ValueError('Could not infer attribute type from empty iterator')
        ks = {infer(name, e)[0] for e in x}
        if ks == {'INT'}:
            return 'INTS', list(x)
        if ks <= {'INT', 'FLOAT'}:
            return 'FLOATS', list(x)
        if ks == {'STRING'}:
            return 'STRINGS', [infer(name, e)[1] for e in x]
    raise TypeError('%s is not an accepted attribute value' % type(x).__name__)


def sym_make_node(op, ins, outs, name=None, doc_string=None, domain=None, overload=None, **attrs):
    n = Rec(op_type=op, input=list(ins), output=list(outs), name=name or '', domain=domain or '', attribute=[])
    for k, x in sorted(attrs.items()):
        if x is None:
            continue
        kind, val = infer(k, x)
        n.attribute.append(Rec(name=k, kind=kind, val=val))
    return n


KIND = {'INT': 'i', 'FLOAT': 'f', 'STRING': 's', 'INTS': 'ints', 'FLOATS': 'floats', 'STRINGS': 'strings'}
CODE = {getattr(onnx.AttributeProto, k): k for k in KIND}


def plain(x):
    """text instead of bytes"""
    if isinstance(x, bytes):
        return 'bytes ' + x.decode('latin1')
    return [plain(e) for e in x] if isinstance(x, (list, tuple)) or 'Repeated' in type(x).__name__ else x


def listed(node):
    r = {}
    for a in node.attribute:
        if isinstance(a, Rec):
            r[a.name] = [a.kind, a.val]
        elif isinstance(a, FakeAttr):
            k = CODE[a.type]
            r[a.name] = [k, getattr(a, KIND[k]) if not isinstance(getattr(a, KIND[k]), tuple) else list(getattr(a, KIND[k]))]
        else:
            k = CODE[a.type]
            x = getattr(a, KIND[k])
            r[a.name] = [k, list(x) if k.endswith('S') else x]
    return {k: plain(x) for k, x in r.items()}


STR = {'auto_pad': b'SAME_UPPER', 'mode': b'linear', 'direction': b'bidirectional', 'equation': b'ij,jk->ik', 'reduction': b'add', 'coordinate_transformation_mode': b'asymmetric'}
SKIP = ('name', 'op_type', 'input', 'output', 'proto', 'attr', 'nextnodes', 'prevnodes', 'shape_calc', 'static_inputs', 'dynamic_inputs')


def attribute_value(v, name, kind, n, how):
    """a value of the kind; lists of n elements"""
    if kind == 'INT':
        return v.int(name, -2 ** 31 if how == 'any' else 0, 2 ** 31 if how == 'any' else 1)
    if kind == 'FLOAT':
        return float(np.float32(v.real(name))) if v.native else v.real(name)
    if kind == 'STRING':
        return STR.get(name, b'some text')
    if kind == 'INTS':
        return [v.int('%s%d' % (name, k), -2 ** 31, 2 ** 31) for k in range(n)]
    if kind == 'FLOATS':
        return [float(np.float32(v.real('%s%d' % (name, k)))) if v.native else v.real('%s%d' % (name, k)) for k in range(n)]
    return [b's%d' % k for k in range(n)]


def fake_attr(name, kind, x):
    a = FakeAttr(name, 0)
    a.type = getattr(onnx.AttributeProto, kind)
    setattr(a, KIND[kind], x)
    return a


def attributes(op, given, n, how):
    """a loaded operator is saved with the attributes, names and connections of the file"""
    def fn(v):
        import onnx_tool.node as N
        vals = {k: [kind, attribute_value(v, k, kind, n, how)] for k, kind in given.items()}
        ins, outs = ['i0', '', 'i2'], ['o0', 'o1']
        if v.native:
            p = oh.make_node(op, ins, outs, 'the name', domain='some.domain')
            for k, (kind, x) in vals.items():
                a = onnx.AttributeProto(name=k, type=getattr(onnx.AttributeProto, kind))
                if kind.endswith('S'):
                    getattr(a, KIND[kind]).extend(x)
                else:
                    setattr(a, KIND[kind], x)
                p.attribute.append(a)
        else:
            p = FakeNode(op, ins, outs, 'the name', {})
            p.domain = 'some.domain'
            p.attribute = [fake_attr(k, kind, x) for k, (kind, x) in vals.items()]
        exp = {'op': op, 'in': list(ins), 'out': list(outs), 'name': 'the name', 'domain': 'some.domain', 'attributes': {k: plain([kind, x]) for k, (kind, x) in vals.items()}}

        def run():
            old = onnx.helper.make_node
            if not v.native:
                onnx.helper.make_node = sym_make_node
            try:
                nd = N.create_node(p)
                nd.input.extend(ins)
                nd.output.extend(outs)
                q = nd.make_nodeproto()
            finally:
                onnx.helper.make_node = old
            return {'op': q.op_type, 'in': list(q.input), 'out': list(q.output), 'name': q.name, 'domain': q.domain, 'attributes': listed(q)}
        return Case(run, exp, False, {'op': op, 'attributes': {k: x for k, (_, x) in vals.items()}})
    return fn


# ------------------------------------------------------------------ graphs
def text(g):
    """what a graph message says"""
    def vi(x):
        t = x.type.tensor_type
        return [x.name, t.elem_type, [d.dim_value if d.HasField('dim_value') else d.dim_param for d in t.shape.dim] if t.HasField('shape') else None]
    return {'nodes': [[n.name, n.op_type, list(n.input), list(n.output), n.SerializeToString().hex()] for n in g.node], 'inputs': sorted(map(vi, g.input)),
            'constants': sorted([i.name, i.data_type, list(i.dims), onnx.numpy_helper.to_array(i).tobytes().hex()] for i in g.initializer)}


def graphs(size, order):
    def fn(v):
        import os
        from onnx_tool.graph import Graph
        from onnx_tool.utils import ModelConfig
        w = Wiring(v, **size)
        m = w.proto()
        if order == 'attrs':
            for k, n in enumerate(m.node):
                n.attribute.append(oh.make_attribute('alpha', k + .5))
        used = {x for _, _, i, _ in w.nodes for x in i if x}
        exp = text(m)
        exp['inputs'] = [x for x in exp['inputs'] if x[0] in used]
        exp['constants'] = [x for x in exp['constants'] if x[0] in used]
        outs = sorted(w.outs)

        def run():
            r = []
            with contextlib.redirect_stdout(None):
                g = Graph(m, ModelConfig({}))
                s = g.make_graph_onnx(list(g.nodemap), 'g', g.input, g.output, with_initializer=True)
                again = Graph(s, ModelConfig({}))
                s2 = again.make_graph_onnx(list(again.nodemap), 'g', again.input, again.output, with_initializer=True)
                bare = g.make_graph_onnx(list(g.nodemap), 'g', g.input, g.output, with_initializer=False)
            for k in (s, s2):
                x = text(k)
                x['constants'] = [c for c in x['constants'] if c[0] in used]
                x['inputs'] = [c for c in x['inputs'] if c[0] in used]
                r.append([x, sorted(o.name for o in k.output)])
            bare = text(bare)
            return {'saved': r, 'bare': [bare['nodes'], bare['constants']]}
        return Case(run, {'saved': [[exp, outs]] * 2, 'bare': [exp['nodes'], []]}, False, w.text())
    return fn


OPSETS = [[('', 17)], [('', 13), ('com.microsoft', 1)], [('ai.onnx.ml', 3), ('', 21)]]


def files(size, how, ops, ir):
    """a model read from a file, whatever the order of its nodes, saved and read again"""
    def fn(v):
        import itertools
        from .c08 import in_order
        w = Wiring(v, **size)
        n = len(w.nodes)
        m = w.proto(list(choose(v, 'order', list(itertools.permutations(range(n))))))
        for x in m.output:
            x.type.tensor_type.elem_type = 1
        used = {x for _, _, i, _ in w.nodes for x in i if x}
        exp = text(m)
        exp['nodes'].sort()
        exp['inputs'] = [x for x in exp['inputs'] if x[0] in used]
        exp['constants'] = [x for x in exp['constants'] if x[0] in used]
        if how == 'shape only':
            exp['inputs'] = sorted(exp['inputs'] + [[x[0], x[1], x[2]] for x in exp['constants']])
            exp['constants'] = []
        nodes = {x[0]: [x[1], x[2], x[3]] for x in exp['nodes']}

        def run():
            import os, pathlib, tempfile
            from onnx_tool import Model
            raw = oh.make_model(m, opset_imports=[oh.make_opsetid(*o) for o in ops], ir_version=ir)
            kw = {'shape only': dict(shape_only=True), 'no shape': dict(no_shape=True)}.get(how, {})
            r = []
            with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(None):
                p = os.path.join(d, 'm.onnx')
                onnx.save_model(raw, p)
                for q in (p, pathlib.Path(p)):
                    f = os.path.join(d, 's.onnx')
                    Model(q).save_model(f, **kw)
                    s = onnx.load_model(f)
                    Model(f).save_model(f, **kw)
                    for s in (s, onnx.load_model(f)):
                        x = text(s.graph)
                        x['inputs'] = [c for c in x['inputs'] if c[0] in used]
                        x['constants'] = [c for c in x['constants'] if c[0] in used]
                        ordered = in_order(nodes, [k[0] for k in x['nodes']])
                        x['nodes'].sort()
                        r.append([x, sorted(o.name for o in s.graph.output), sorted((o.domain, o.version) for o in s.opset_import), s.ir_version, ordered, how == 'no shape' and len(s.graph.value_info)])
            return r
        return Case(run, [[exp, sorted(w.outs), sorted(ops), ir, True, 0 if how == 'no shape' else False]] * 4, False, dict(w.text(), opsets=ops))
    return fn


DIMS = ('1', '640', 'batch', 'N')


def io_modify(names, kinds):
    """rewritten input and output extents: the named declarations change, nothing else does"""
    def fn(v):
        def val(k, d):
            return {'value': 3 + d, 'name': 'd%d' % d, 'none': None}[kinds[k][d]]
        decl = {n: [val(k, d) for d in range(2)] for k, n in enumerate(('x', 'z', 'y'))}
        new = {n: [choose(v, 'new %s %d' % (n, d), DIMS) for d in range(2)] for n in names}
        want = {n: [int(d) if d.isnumeric() else d for d in new.get(n, [])] or decl[n] for n in decl}

        def run():
            import os, tempfile
            import onnx_tool
            m = oh.make_model(oh.make_graph([oh.make_node('Custom', ['x', 'w', 'z'], ['y'], 'n0', axis=3)], 'g', [oh.make_tensor_value_info(n, 1, decl[n]) for n in ('x', 'z')],
                                            [oh.make_tensor_value_info('y', 1, decl['y'])], [nh.from_array(np.arange(6, dtype=np.float32), 'w')]), ir_version=8)
            with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(None):
                f = os.path.join(d, 's.onnx')
                onnx_tool.model_io_modify(m, f, {n: 'x'.join(x) for n, x in new.items()} if names is not None else None)
                s = onnx.load_model(f).graph
            return {'extents': {i.name: [getattr(q, q.WhichOneof('value')) if q.WhichOneof('value') else None for q in i.type.tensor_type.shape.dim] for i in list(s.input) + list(s.output)},
                    'types': [i.type.tensor_type.elem_type for i in list(s.input) + list(s.output)], 'nodes': [[n.name, n.op_type, list(n.input), list(n.output), [(a.name, a.i) for a in n.attribute]] for n in s.node],
                    'constants': [[i.name, nh.to_array(i).tolist()] for i in s.initializer]}
        exp = {'extents': want, 'types': [1, 1, 1], 'nodes': [['n0', 'Custom', ['x', 'w', 'z'], ['y'], [('axis', 3)]]], 'constants': [['w', [0., 1., 2., 3., 4., 5.]]]}
        return Case(run, exp, False, {'declared': decl, 'new': new})
    return fn


def export(dtype, half):
    """constants written to files of their own"""
    def fn(v):
        which = choose(v, 'which', [None, [0], [1, 2], [3], [2, 0]])
        names = [choose(v, 'name', ['w', 'a/w', 'a\\w', 'a/b\\w']), 'k', 'v/x', 'absent']
        a = {names[0]: np.asarray([[1.5, 0, -3], [70000, 1e-9, 2]]).astype(dtype), names[1]: np.asarray(7).astype(dtype), names[2]: np.zeros((0, 2), dtype)}
        files_of = {n: n.replace('/', '_').replace('\\', '_') + '.npy' for n in a}
        ask = None if which is None else [names[k] for k in which]

        def run():
            import os, tempfile, warnings
            import onnx_tool
            m = oh.make_model(oh.make_graph([oh.make_node('Custom', ['x'] + list(a), ['y'], 'n0')], 'g', [oh.make_tensor_value_info('x', 1, [1])], [oh.make_tensor_value_info('y', 1, None)],
                                            [nh.from_array(x, n) for n, x in a.items()]), ir_version=8)
            with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(None), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                onnx_tool.model_export_tensors_numpy(m, ask, os.path.join(d, 'out'), half)
                got = {f: np.load(os.path.join(d, 'out', f)) for f in os.listdir(os.path.join(d, 'out'))}
            return {f: [x.dtype.name, list(x.shape), x.tolist()] for f, x in sorted(got.items())}
        exp = {}
        with np.errstate(all='ignore'):
            for n, x in a.items():
                if ask is None or n in ask:
                    x = x.astype(np.float16) if half and x.dtype.kind == 'f' else x
                    exp[files_of[n]] = [x.dtype.name, list(x.shape), x.tolist()]
        return Case(run, dict(sorted(exp.items())), False, {'names': list(a), 'asked': ask})
    return fn


def schema_attrs(op):
    """attributes of the operator that messages carry as numbers, strings and lists"""
    try:
        s = onnx.defs.get_schema(op)
    except Exception:
        return {}
    names = {'INT': 'INT', 'FLOAT': 'FLOAT', 'STRING': 'STRING', 'INTS': 'INTS', 'FLOATS': 'FLOATS', 'STRINGS': 'STRINGS'}
    return {k: names[a.type.name] for k, a in s.attributes.items() if a.type.name in names and k not in SKIP}


def operators():
    """every operator the tool has a class for (read off the source: the catalogue is built before the code is imported)"""
    import ast, os
    f = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'onnx_tool', 'node.py')
    return sorted({n.name[:-4] for n in ast.walk(ast.parse(open(f, encoding='utf-8').read())) if isinstance(n, ast.ClassDef) and n.name.endswith('Node') and len(n.name) > 4})


def entries(tier):
    for d in TYPES:
        for raw in ([False, True] if d != 'bytes' else [False]):
            f = 'raw bytes' if raw else FIELD.get(d, 'int32_data')
            for r in range(5):
                yield Entry('load/%s/%s/rank %d' % (d, f, r), ['C11'], load(d, raw, r))
            yield Entry('load/%s/%s/any rank' % (d, f), ['C11'], load(d, raw, None))
        for r in range(5):
            for how in ('created', 'updated', 'assigned'):
                yield Entry('save/%s/%s/rank %d' % (d, how, r), ['C11'], save(d, r, how), 'ranks 0-4')
    import itertools
    for d in TYPES:
        for kinds in [''] + [''.join(k) for r in (1, 2, 3) for k in itertools.product('inu', repeat=r)] + ['inin', 'nnii', 'iiiii']:
            yield Entry('declared/%s/%s' % (d, kinds or 'rank 0'), ['C11'], declared(d, kinds))
    for op in operators() + ['Custom']:
        at = schema_attrs(op)
        many = {'i': 'INT', 'x': 'FLOAT', 's': 'STRING', 'li': 'INTS', 'lf': 'FLOATS', 'ls': 'STRINGS', 'axis': 'INT', 'axes': 'INTS', 'epsilon': 'FLOAT'}
        for how, g in (('schema', at), ('any', dict(many, **at))):
            if not g:
                continue
            for n in (0, 1, 2, 3):
                yield Entry('attributes/%s/%s/lists of %d' % (op, how, n), ['C11'], attributes(op, g, n, how), 'list attributes of up to 3 values')
    B = 'every wiring of graphs of that size'
    for name, size in {'2 nodes': dict(slots=[2, 2], outs=[2, 2], optional=True), '3 nodes': dict(slots=[1, 2, 2]), '3 nodes, 2 inputs': dict(slots=[2, 1, 2], inputs=2, free_outputs=False),
                       '3 nodes, 2 constants': dict(slots=[2, 1, 2], consts=2, free_outputs=False), '4 nodes': dict(slots=[1, 1, 2, 2], free_outputs=False, consts=0)}.items():
        yield Entry('graph/%s' % name, ['C11'], graphs(size, ''), B)
    yield Entry('graph/3 nodes with attributes', ['C11'], graphs(dict(slots=[1, 2, 2], free_outputs=False), 'attrs'), B)
    for k, how in enumerate(('all', 'shape only', 'no shape')):
        yield Entry('file/2 nodes/%s' % how, ['C11'], files(dict(slots=[2, 2], outs=[2, 1]), how, OPSETS[k], 8 + k), B)
        yield Entry('file/3 nodes/%s' % how, ['C11'], files(dict(slots=[1, 2, 1], free_outputs=False), how, OPSETS[k - 1], 9), B)
    for names in (['x'], ['z'], ['y'], ['x', 'y'], ['y', 'z'], ['z', 'x'], []):
        for kinds in ([['value'] * 2] * 3, [['name'] * 2] * 3, [['value', 'name'], ['name', 'value'], ['value', 'name']]):
            yield Entry('io/%s/%s' % ('+'.join(names) or 'none', ' '.join('-'.join(k) for k in kinds)), ['C11'], io_modify(names, kinds), 'listed extents')
    for d in ('float32', 'float64', 'float16', 'int64', 'int8', 'bool'):
        for half in (False, True):
            yield Entry('export/%s%s' % (d, '/as float16' if half else ''), ['C11'], export(d, half), 'listed values')
