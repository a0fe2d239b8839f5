"""Built language models: for every size a configuration can have, the graph holds exactly the nodes, constants, tensors and costs the
configuration determines; KV-cache figures; decoding; independence of builds; estimates."""
import contextlib
import itertools
from fractions import Fraction
import numpy as np
from pyvc.contract import Entry, Case
from spec import llm as S
from spec.sym import And, prod
from . import llmview as V


class Table:
    """a float table known by its shape only (the rotation tables)"""

    def __init__(self, shape, dtype=np.float32):
        self.shape, self.dtype = tuple(shape), np.dtype(dtype)

    def reshape(self, *s):
        s = list(s[0]) if len(s) == 1 and isinstance(s[0], (list, tuple)) else list(s)
        if any(type(e) is int and e == -1 for e in s):
            k = s.index(-1)
            rest = [e for j, e in enumerate(s) if j != k]
            if len(self.shape) != 1 or any(type(e) is not int or e != 1 for e in rest):
                raise NotImplementedError('reshape')
            s[k] = self.shape[0]
        elif bool(prod(s) != prod(self.shape)):
            raise ValueError('cannot reshape')
        return Table(s, self.dtype)

    def astype(self, d):
        return Table(self.shape, d)

    def _with(self, o):
        if not isinstance(o, Table):
            return Table(self.shape, self.dtype)
        a, b = self.shape, o.shape
        n = max(len(a), len(b))
        a, b = (1,) * (n - len(a)) + a, (1,) * (n - len(b)) + b
        r = []
        for x, y in zip(a, b):
            if type(x) is int and x == 1:
                r.append(y)
            elif type(y) is int and y == 1 or bool(x == y):
                r.append(x)
            else:
                raise ValueError('operands could not be broadcast')
        return Table(r, self.dtype)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = _with

    def __neg__(self):
        return self


class Numpy:
    """numpy inside llm.py: arange/cos/sin of symbolic length give tables, everything else is numpy"""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, k):
        return getattr(self._real, k)

    def arange(self, *a, **k):
        if len(a) == 1:
            return Table([a[0]], k.get('dtype', np.int64))
        return self._real.arange(*a, **k)

    def outer(self, a, b):
        return a.reshape(-1, 1) * b.reshape(1, -1)

    def array(self, x, *a, **k):
        return Ints(x) if not isinstance(x, Table) else x

    def _one(self, x):
        return x if isinstance(x, Table) else np.cos(x)
    cos = sin = exp = power = _one


class Ints:
    """a small integer constant (rank 0 or 1) with symbolic values"""

    def __init__(self, x):
        self.values = [int_of(e) for e in x] if isinstance(x, (list, tuple)) else int_of(x)
        self.shape = (len(x),) if isinstance(x, (list, tuple)) else ()
        self.dtype = np.dtype(np.int64)
        self.size = prod(self.shape) if self.shape else 1

    def max(self):
        return max(self.values) if self.shape else self.values

    def reshape(self, *_):
        return self

    def tolist(self):
        return self.values

    def astype(self, d):
        return self

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)

    def __getitem__(self, k):
        return self.values[k]


def int_of(e):
    return e


@contextlib.contextmanager
def stubs(v):
    """symbolic reading: shape-only rotation tables and small integer constants of terms; no protobuf forms (C11)"""
    if v.native:
        yield
        return
    import onnx_tool.llm as L
    import onnx_tool.tensor as T
    saved = [(L, 'numpy', L.numpy)] + [(T.Tensor, k, getattr(T.Tensor, k)) for k in ('make_value_proto', 'make_tensor_proto', 'update_tensor', 'sparsity_search')]

    def update_tensor(self, data):
        self.numpy = data
        self.update_shape(data.shape)
        self.update_dtype(data.dtype.type)
    import onnx_tool.graph as G
    saved.append((G.Graph, 'add_initial', G.Graph.add_initial))

    def add_initial(self, name, data):
        # contract of add_initial: a constant of that name, shape and value joins the graph
        self.initials.append(name)
        t = T.Tensor(name)
        t.type, t.numpy, t.shape, t.dtype = T.STATIC_TENSOR, data, data.shape, data.dtype.type
        self.tensormap[name] = t
        return t
    for m, k, x in ((L, 'numpy', Numpy(L.numpy)), (T.Tensor, 'make_value_proto', lambda s: None), (T.Tensor, 'make_tensor_proto', lambda s: None),
                    (T.Tensor, 'update_tensor', update_tensor), (T.Tensor, 'sparsity_search', lambda s, *a, **k: setattr(s, 'sparsity', None)), (G.Graph, 'add_initial', add_initial)):
        setattr(m, k, x)
    try:
        yield
    finally:
        for m, k, x in saved:
            setattr(m, k, x)


# ------------------------------------------------------------------ configurations
def variants(arch, layers):
    """the choices between spellings and switches that are not sizes"""
    base = dict(architectures=[arch], name='m', num_hidden_layers=layers, hidden_act='silu', rms_norm_eps=1e-5)
    yield 'head_dim', dict(base), {'head_dim', 'rotary_dim', 'max_position_embeddings'}
    yield 'null head size', dict(base, head_dim=None), {'rotary_dim'}
    yield 'own key-value heads', dict(base), {'head_dim', 'rotary_dim', 'no kv'}
    yield 'derived head size', dict(base), {'max_position_embeddings'}
    yield 'default table', dict(base), {'head_dim', 'rotary_dim'}
    for att, mlp in ((True, True), (False, False), (True, False), (False, True)):
        yield 'biases %s %s' % (att, mlp), dict(base, attention_bias=att, mlp_bias=mlp), {'head_dim', 'rotary_dim'}
    if arch not in S.QK_NORM:
        b = dict(base)
        b.pop('rms_norm_eps')
        yield 'layer norm', dict(b, layer_norm_eps=1e-5), {'head_dim', 'rotary_dim'}
        yield 'other spellings', dict(b, layer_norm_epsilon=1e-5), {'head_dim', 'rotary_dim', 'ff_intermediate_size'}
        if arch.startswith('GPT'):
            b.pop('hidden_act')
            b.pop('num_hidden_layers')
            g = dict(b, layer_norm_epsilon=1e-5, activation_function='gelu_new', n_layer=layers)
            yield 'gpt spellings', g, {'n_embd', 'n_head', 'n_inner', 'n_positions'}
            yield 'gpt spellings, no inner size', dict(g, n_inner=None), {'n_embd', 'n_head', 'rotary_dim'}
            if arch == 'GPT2LMHeadModel':
                yield 'gpt spellings, inner size left out', g, {'n_embd', 'n_head'}
    if arch in ('Phi3ForCausalLM', 'Phi3SmallForCausalLM'):
        for t in ('phi3', 'phi3small'):
            yield t, dict(base, model_type=t), {'head_dim', 'rotary_dim'}
    if arch in S.MOE | S.MLA:
        yield 'experts', dict(base), {'head_dim', 'rotary_dim', 'num_experts', 'num_experts_per_tok', 'moe_intermediate_size', 'shared_expert_intermediate_size'}
        yield 'experts only', dict(base), {'head_dim', 'rotary_dim', 'num_experts', 'moe_intermediate_size', 'no dense'}
        yield 'local experts', dict(base), {'head_dim', 'rotary_dim', 'num_local_experts', 'num_experts_per_tok', 'moe_intermediate_size'}
    if arch in S.MLA:
        for cr in (0, 2, 4):
            yield 'latent, ratio %d' % cr, dict(base, compress_ratio=cr), {'head_dim', 'q_lora_rank', 'o_lora_rank', 'rope_head_dim', 'window_size', 'index_n_heads', 'index_head_dim', 'index_topk'}
        yield 'latent, 2 groups', dict(base, o_groups=2), {'head_dim', 'q_lora_rank', 'o_lora_rank'}
    if arch.startswith('Qwen3_5'):
        for types in itertools.product(['linear_attention', 'full_attention'], repeat=layers):
            yield 'layer types %s' % ' '.join(t[0] for t in types), dict(base, layer_types=list(types)), {'head_dim', 'rotary_dim', 'linear_num_key_heads', 'linear_num_value_heads', 'linear_value_head_dim', 'linear_conv_kernel_dim', 'linear=head'}
        yield 'default linear sizes', dict(base, layer_types=['linear_attention']), {'head_dim', 'rotary_dim'}
    if arch == S.LLAMA:
        yield 'softcapping', dict(base, final_logit_softcapping=30.0, attn_logit_softcapping=50.0), {'head_dim', 'rotary_dim'}
        yield 'no softcapping', dict(base, final_logit_softcapping=None, attn_logit_softcapping=None), {'head_dim', 'rotary_dim'}
        yield 'another name', dict(base, architectures=['MistralForCausalLM']), {'head_dim', 'rotary_dim'}


CAP = {'max_position_embeddings': 30, 'n_positions': 30}


def fill(v, cfg, keys, tag=''):
    """symbolic sizes for the keys in use"""
    c = dict(cfg)
    one = lambda k: v.small(tag + k, 1, 6)
    c['vocab_size'] = one('vocab')
    if 'n_embd' in keys:
        keys = keys | {'n_embd'}
    else:
        c['hidden_size'], c['num_attention_heads'] = one('hidden'), one('heads')
        if 'no kv' not in keys:
            c['num_key_value_heads'] = one('kv heads')
        if not keys & {'ff_intermediate_size', 'no dense'}:
            c['intermediate_size'] = one('intermediate')
    for k in sorted(keys - {'no kv', 'no dense', 'own map'}):
        if k == 'linear=head':
            c['linear_key_head_dim'] = c['head_dim']
        else:
            c[k] = one(k)
    if 'num_layers' in c:
        c['num_hidden_layers'] = c.pop('num_layers')
    return c


def own_map(c):
    return c['architectures'][0] in S.LEARNED_POSITIONS or c['architectures'][0] == S.LLAMA and 'attention_bias' in c


def make(c, b, s, context=None, past=0):
    from onnx_tool.llm import Builder
    x = Builder(**dict(c))
    if own_map(c):
        x.build_graph([b, s], V.weight_map())
    else:
        x.build_graph([b, s])
    if context is not None:
        x.add_kv_cache(context, past)
    return x


def model(c, b, s, context=None):
    m = S.Model(c, b, s, V.WMAP if own_map(c) else None).build()
    return m.cache(context) if context is not None else m


def attributes(x, m):
    return {n: {k: getattr(x.graph.nodemap[n], k, None) for k in a} for n, a in m.attrs.items() if a}


def shown(v, x, m, past=0, figures=True):
    st = V.structure(x)
    st['order'] = V.ordered(x.graph)
    r = {'structure': st, 'constant data': {n: V.data(x.graph.tensormap[n]) for n in m.data if n in x.graph.tensormap},
         'attributes': attributes(x, m), 'kv': x.kv_params}
    if figures:
        r['figures'] = V.figures(x)
    return r


def wanted(m, past=0, figures=True):
    st = V.want_structure(m)
    st['order'] = True
    r = {'structure': st, 'constant data': m.data, 'attributes': {n: a for n, a in m.attrs.items() if a}, 'kv': m.kv_params(past)}
    if figures:
        r['figures'] = V.want_figures(m, past)
    return r


def built(cfg, keys, cache):
    def fn(v):
        c = fill(v, cfg, keys)
        b, s = v.small('batch', 1, 3), v.small('seq', 1, 6)
        context = past = None
        if cache:
            past = v.small('past', 0, 5)
            context = v.small('context', 1, 20)
            v.require(context >= past + s)
        m = model(c, b, s, context)

        def run():
            with stubs(v):
                x = make(c, b, s, context, past or 0)
                x.profile()
                return shown(v, x, m, past or 0)
        return Case(run, wanted(m, past or 0), False, {'config': c, 'batch': b, 'seq': s, 'context': context, 'past': past})
    return fn


def any_layers(cfg, keys, k):
    """the loop over the layers: layer k continues from what the layers before it left, whatever their number; the totals follow the count"""
    def fn(v):
        c = fill(v, cfg, keys)
        b, s, past, context = v.small('batch', 1, 3), v.small('seq', 1, 6), v.small('past', 0, 5), v.small('context', 1, 20)
        v.require(context >= past + s)
        c['num_hidden_layers'] = n = v.small('layers', 1, 3)
        if v.native:
            numbers = None
        else:
            v.require(n > k + 1)
            numbers = [0, k, k + 1]
        m = S.Model(c, b, s, V.WMAP if own_map(c) else None).build(numbers).cache(context)

        def run():
            with stubs(v):
                if v.native:
                    x = make(c, b, s, context, past)
                    return dict(shown(v, x, m, past, False), range=True)
                from pyvc import loops
                from pyvc.path import Gone
                seen = []

                def accepts(loc, it):
                    return not seen and getattr(it, 'n', None) is not None and getattr(loc.get('self'), 'num_hidden_layers', None) is n

                def iterate(loc, it):
                    j = v.int('any layer', 0)
                    v.require(j < n)
                    seen.append(And(it.n == n, it.at(j.t) == j))
                    yield 0
                    yield k
                    yield k + 1
                loops.CUT[:] = [(accepts, iterate)]
                try:
                    x = make(c, b, s, context, past)
                finally:
                    loops.CUT[:] = []
                if not seen:
                    raise Gone('the loop over the layers has another form')
                return dict(shown(v, x, m, past, False), range=seen[0])
        return Case(run, dict(wanted(m, past, False), range=True), False, {'config': c, 'batch': b, 'seq': s, 'context': context, 'past': past})
    return fn


def inputs(v, shape):
    return np.zeros([int(e) for e in shape], np.int64) if v.native else Table(shape, np.int64)


def decoded(cfg, keys, again=False):
    """other lengths after the build: the cache holds other positions, the tokens have another count"""
    def fn(v):
        c = fill(v, cfg, keys)
        b, s, s2 = v.small('batch', 1, 3), v.small('seq', 1, 6), v.small('seq2', 1, 6)
        past, past2, context = v.small('past', 0, 5), v.small('past2', 0, 5), v.small('context', 1, 20)
        v.require(And(context >= past + s, context >= past2 + s2))
        m = model(c, b, s2, context)

        def run():
            with stubs(v):
                x = make(c, b, s, context, past)
                if again:
                    x.profile()
                x.set_past_kv_length(past2)
                x.graph.shape_infer(inputs={k: inputs(v, [b, s2]) for k in x.graph.input if k in ('ids', 'position')})
                x.profile()
                r = shown(v, x, m, past2)
                return {k: r[k] for k in ('structure', 'figures')}
        w = wanted(m, past2)
        return Case(run, {k: w[k] for k in ('structure', 'figures')}, False, {'config': c, 'batch': b, 'seq': [s, s2], 'context': context, 'past': [past, past2]})
    return fn


def history(one, two):
    """a model built before and after another one: each is what its own configuration says"""
    def fn(v):
        c = [fill(v, cfg, keys, 'abc'[k]) for k, (cfg, keys) in enumerate((one, two))]
        b, s = v.small('batch', 1, 3), v.small('seq', 1, 6)
        m = [model(x, b, s) for x in c]

        def run():
            import onnx_tool.llm as L
            before = repr((L.ArchMap, L.WeightMap, L.ActMap, L.Builder.DefaultCfg))
            with stubs(v):
                x0 = make(c[0], b, s)
                x1 = make(c[1], b, s)
                x2 = make(c[0], b, s)
                x1.profile()
                x0.profile()
                x2.profile()
                r = [shown(v, x, y) for x, y in ((x0, m[0]), (x1, m[1]), (x2, m[0]))]
            return {'builds': r, 'tables': repr((L.ArchMap, L.WeightMap, L.ActMap, L.Builder.DefaultCfg)) == before}
        return Case(run, {'builds': [wanted(m[0]), wanted(m[1]), wanted(m[0])], 'tables': True}, False, {'configs': c, 'batch': b, 'seq': s})
    return fn


def vision(kind, keys):
    def fn(v):
        c = {'architectures': ['Qwen3_5ForConditionalGeneration'], 'num_hidden_layers': 1, 'hidden_act': 'silu', 'rms_norm_eps': 1e-6, 'vision_num_layers': 2}
        c = fill(v, c, {'head_dim'} | keys)
        if kind is not None:
            c['projector_type'] = kind
        ch, hh, ww = v.small('channels', 1, 3), v.small('height', 1, 30), v.small('width', 1, 30)
        patch = c.get('vision_patch_size', 14)
        v.require(And(hh >= patch, ww >= patch))
        m = S.Model(c, 1, None).vision(ch, hh, ww)

        def run():
            from onnx_tool.llm import Builder
            with stubs(v):
                x = Builder(**dict(c))
                x.build_vision_graph([ch, hh, ww])
                x.profile()
                x.kv_params = 0
                r = shown(v, x, m)
                r.pop('kv')
                return r
        st = V.want_structure(m)
        st['order'] = True
        exp = {'structure': st, 'constant data': m.data, 'attributes': {n: a for n, a in m.attrs.items() if a}, 'figures': V.want_figures(m)}
        return Case(run, exp, False, {'config': c, 'image': [ch, hh, ww]})
    return fn


OPS = ['MatMul', 'SDPA', 'MoE', 'MLA', 'GDN', 'Gather', 'Add']
KINDS = {'MM': 'FP16', 'MHA': 'INT8', 'Others': 'FP32'}


def num(v, name, lo=None):
    """a positive figure"""
    x = v.real(name)
    if v.native:
        x = abs(x) + .25
    else:
        v.require(x > 0)
    return x


def near(v, a, b):
    return abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-300 if v.native else a == b


def estimated(ops, dev, default=False, kinds=KINDS):
    """estimates of a graph with arbitrary node figures, on an arbitrary device"""
    def fn(v):
        bits = {k: num(v, 'bits_' + k) for k in ('MM', 'MHA', 'Others')}
        fig = [[v.int('%s_%d' % (k, j), 0, 99 if v.native else None) for k in ('macs', 'io', 'static', 'kv')] for j, _ in enumerate(ops)]
        d = None
        if dev is not None:
            d = {'FP32': num(v, 'fp32'), 'Bandwidth': num(v, 'bandwidth')}
            for k in ('FP16', 'INT8'):
                if k in dev:
                    d[k] = num(v, k)
            if 'link' in dev:
                d['LinkBandwidth'] = num(v, 'link')
            if 'nolink' in dev:
                d['LinkBandwidth'] = 0
            if 'number' in dev:
                d['Number'] = v.int('devices', 1, 9 if v.native else None)
        cfg = None if default else {'Compute': dict(kinds), 'Bits': bits}
        use = {'MM': 4.5, 'MHA': 16, 'Others': 32} if default else bits
        kk = {k: 'FP32' for k in KINDS} if default else kinds

        def run():
            from onnx_tool.llm import Builder
            from onnx_tool.node import create_node, TmpNodeProto
            x = Builder(architectures=['LlamaForCausalLM'], hidden_size=8, num_attention_heads=2, num_key_value_heads=2, num_hidden_layers=1, vocab_size=4)
            nodes = []
            for j, op in enumerate(ops):
                n = create_node(TmpNodeProto('n%d' % j, op, {}))
                n.input, n.output = [], []
                x.graph.nodemap[n.name] = n
                nodes.append(n)

            def profile(*a, **k):
                # contract of Graph.profile (C07): every node has its figures
                for n, f in zip(nodes, fig):
                    n.macs, n.io_params, n.static_params = f[0], f[1], f[2]
                    if n.op_type == 'SDPA':
                        n.kv_size = f[3]
            x.graph.profile = profile
            x.profile(cfg, d)
            ok = {}
            sd = None if d is None else S.device(d, kk)
            tot, held = [0, 0, 0], {'MM': 0, 'MHA': 0, 'Others': 0}
            for n, f in zip(nodes, fig):
                e = S.estimate(n.op_type, f[0], f[1], f[2], f[3], use, sd)
                p = n.llm_profile
                ok[n.name + ' operations'] = near(v, p['FLOPs'], e['flops'])
                ok[n.name + ' bytes'] = near(v, p['Memory'], e['memory'])
                if d is not None:
                    c, l, t, s = p['Device']['latency']
                    ok[n.name + ' compute time'] = near(v, c, e['compute'])
                    ok[n.name + ' memory time'] = near(v, l, e['load'])
                    ok[n.name + ' exchange time'] = near(v, s, e['sync'])
                    ok[n.name + ' time'] = near(v, t, e['latency'])
                    ok[n.name + ' limit'] = (c == l) if v.native and c == l else (c > l) == (p['Device']['Bottleneck'] == 'Compute')
                else:
                    ok[n.name + ' device'] = p['Device'] is None
                tot = [tot[0] + e['flops'], tot[1] + e['memory'], tot[2] + e.get('latency', 0)]
                held[e['group']] = held[e['group']] + e['held']
            for k, (a, b) in enumerate(zip(x.llm_profile, tot)):
                ok['total %d' % k] = near(v, a, b)
            want = [held['MM'], held['MHA'], held['Others'], held['MM'] + held['MHA'] + held['Others']]
            for k, (a, b) in enumerate(zip(x.context_mem, want)):
                ok['held %d' % k] = near(v, a, b)
            ok['totals'] = len(x.llm_profile) == 3 and len(x.context_mem) == 4
            return ok
        names = ['totals'] + ['total %d' % k for k in range(3)] + ['held %d' % k for k in range(4)]
        for j, _ in enumerate(ops):
            names += ['n%d %s' % (j, k) for k in ('operations', 'bytes') + (('compute time', 'memory time', 'exchange time', 'time', 'limit') if dev is not None else ('device',))]
        return Case(run, dict.fromkeys(names, True), False, {'ops': ops, 'bits': bits, 'figures': fig, 'device': d})
    return fn


def within(v, cell, value, per=1):
    """the cell shows that number, up to 1 / per"""
    if v.native:
        try:
            return abs(float(cell.replace(',', '')) - value) <= 1 / per + 1e-9 * abs(value)
        except (ValueError, OverflowError):
            return False
    from pyvc.values import reading
    r = reading(cell)
    if r is None:
        try:
            x = Fraction(cell.replace(',', ''))
        except ValueError:
            return False
    elif r[1] in ('', ',', 'd', ',d') or (r[1][:1] == '.' and r[1][-1:] == 'f' and 10 ** int(r[1][1:-1]) >= per):
        x = r[0]
    else:
        return False
    return And((x - value) * per <= 1, (value - x) * per <= 1)


def printed(ops, dev):
    """the printed table: every node with the figures of the estimate, then the totals"""
    def fn(v):
        fig = [[num(v, '%s_%d' % (k, j)) for k in ('flops', 'memory', 'compute', 'load', 'sync')] for j, _ in enumerate(ops)]
        limit = [('Compute', 'Memory', 'Sync')[j % 3] for j, _ in enumerate(ops)]
        time = [num(v, 'time_%d' % j) for j, _ in enumerate(ops)]

        def run():
            import contextlib, csv, io, os, tempfile
            from onnx_tool.llm import Builder
            from onnx_tool.node import create_node, TmpNodeProto
            x = Builder(architectures=['LlamaForCausalLM'], hidden_size=8, num_attention_heads=2, num_key_value_heads=2, num_hidden_layers=1, vocab_size=4)
            tot = [0, 0, 0]
            for j, op in enumerate(ops):
                n = create_node(TmpNodeProto('n%d' % j, op, {}))
                n.input, n.output, n.inshape, n.outshape = [], [], [2, 3], [3, 5]
                x.graph.nodemap[n.name] = n
                f = fig[j]
                n.llm_profile = {'FLOPs': f[0], 'Memory': f[1], 'Device': {'latency': [f[2], f[3], time[j], f[4]], 'Bottleneck': limit[j]} if dev else None}
                tot = [tot[0] + f[0], tot[1] + f[1], tot[2] + (time[j] if dev else 0)]
            x.llm_profile = tot
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, 't.csv')
                with contextlib.redirect_stdout(io.StringIO()):
                    x.print_profile(p)
                with open(p) as f:
                    rows = list(csv.reader(f))
            col = {h: k for k, h in enumerate(rows[0])}
            r = {'rows': [(b[0], b[1]) for b in rows[1:-1]], 'last': rows[-1][0]}
            L = 'Projected Latency(ms)'
            for j, b in enumerate(rows[1:-1]):
                n = b[0]
                r[n + ' operations'] = within(v, b[col['FLOPs']], fig[j][0])
                r[n + ' bytes'] = within(v, b[col['Memory(bytes)']], fig[j][1])
                if dev:
                    r[n + ' time'] = within(v, b[col[L]], time[j], 10 ** 5)
                    r[n + ' limit'] = b[col['Bottleneck']] == limit[j]
            r['total operations'] = within(v, rows[-1][col['FLOPs']], tot[0])
            r['total bytes'] = within(v, rows[-1][col['Memory(bytes)']], tot[1])
            if dev:
                r['total time'] = within(v, rows[-1][col[L]], tot[2], 10 ** 5)
            return r
        exp = {'rows': [('n%d' % j, op) for j, op in enumerate(ops)], 'last': 'Total', 'total operations': True, 'total bytes': True}
        for j, _ in enumerate(ops):
            exp.update({'n%d %s' % (j, k): True for k in ('operations', 'bytes')})
            if dev:
                exp.update({'n%d time' % j: True, 'n%d limit' % j: True})
        if dev:
            exp['total time'] = True
        return Case(run, exp, False, {'ops': ops, 'figures': fig, 'times': time})
    return fn


def entries(tier):
    B = 'models of that many layers, any sizes'
    for arch in S.ARCHS:
        for layers in (1, 2):
            for what, cfg, keys in variants(arch, layers):
                if layers == 1:
                    for k in (1, 11):
                        if 'layer_types' not in cfg and not (k == 11 and what != 'head_dim') and 'n_layer' not in cfg:
                            yield Entry('%s/any number of layers/%s/layer %d' % (arch, what, k), ['C16'], any_layers(cfg, keys, k))
                if layers > 1 and what not in ('head_dim',) and not what.startswith('layer types'):
                    continue
                for cache in (False, True):
                    yield Entry('%s/%d layers/%s/%s' % (arch, layers, what, 'cache' if cache else 'plain'), ['C16'], built(cfg, keys, cache), B)
                if (what in ('head_dim', 'experts', 'phi3', 'gpt spellings') and (layers == 1 or tier != 'quick')) or what.startswith('layer types'):
                    yield Entry('%s/%d layers/%s/decode' % (arch, layers, what), ['C16'], decoded(cfg, keys, arch not in S.MOE), B)
    first = {a: [(c, k) for w, c, k in variants(a, 1) if w in ('head_dim', 'biases True True', 'biases False False')] for a in S.ARCHS}
    for a in S.ARCHS:
        for one, two in itertools.permutations(first[a], 2):
            yield Entry('%s/after another/%s' % (a, ' '.join(str(x[0].get('attention_bias')) for x in (one, two))), ['C16'], history(one, two), B)
        for o in S.ARCHS:
            if o != a and (tier != 'quick' or (S.ARCHS.index(o) - S.ARCHS.index(a)) % len(S.ARCHS) in (1, 5)):
                yield Entry('%s/after %s' % (a, o), ['C16'], history(first[a][0], first[o][1]), B)
    vk = {'vision_hidden_size', 'vision_num_heads', 'vision_patch_size'}
    for kind in (None, 'mlp', 'linear'):
        yield Entry('vision/%s' % kind, ['C16'], vision(kind, vk), B)
        yield Entry('vision/%s/own sizes' % kind, ['C16'], vision(kind, vk | {'vision_head_dim', 'vision_intermediate_size', 'projector_hidden_dim'}), B)
    E = 'graphs of that many nodes, any figures'
    for dev in (None, (), ('FP16',), ('INT8', 'number'), ('FP16', 'INT8', 'link'), ('FP16', 'INT8', 'link', 'number'), ('nolink', 'number')):
        for op in OPS:
            yield Entry('estimate/%s/%s' % (op, ' '.join(dev) if dev is not None else 'no device'), ['C16'], estimated([op], dev))
        for ops in itertools.combinations(OPS, 3):
            yield Entry('estimate/%s/%s' % (' '.join(ops), ' '.join(dev) if dev is not None else 'no device'), ['C16'], estimated(list(ops), dev), E)
    for dev in (None, (), ('link', 'number')):
        yield Entry('estimate/default/%s' % (dev,), ['C16'], estimated(['MatMul', 'SDPA', 'Add'], dev, True), E)
    for ops in (['MatMul'], ['MatMul', 'SDPA', 'Add'], ['Gather', 'MoE', 'MLA', 'GDN', 'Mul']):
        for dev in (False, True):
            yield Entry('table/%s/%s' % (' '.join(ops), 'device' if dev else 'no device'), ['C16'], printed(ops, dev), E)
