"""Language-model graphs: random configurations of every architecture, published presets, histories of builds, caches, decoding, estimates, saved files."""
import copy, json, os, warnings
import numpy as np
import onnx
from bounded.core import quiet
from contracts import llmview as V
from spec import llm as S
from spec.sym import Min


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def config(rng, arch=None):
    """a configuration of the architecture in one of the spellings in use"""
    arch = arch or pick(rng, S.ARCHS + ['MistralForCausalLM'])
    i = lambda a, b: int(rng.integers(a, b + 1))
    c = {'name': 'm', 'architectures': [arch], 'vocab_size': i(2, 40), 'hidden_act': pick(rng, ['silu', 'gelu_new'])}
    heads, d = i(1, 4), 2 * i(1, 4)
    kv = pick(rng, [1, heads, i(1, 4)])
    layers = i(1, 3)
    if arch in ('GPT2LMHeadModel', 'GPTJForCausalLM') and rng.random() < .7:
        c.update(n_embd=heads * d, n_head=heads, n_layer=layers, layer_norm_epsilon=1e-5, activation_function=c.pop('hidden_act'))
        if arch == 'GPTJForCausalLM' or rng.random() < .5:
            c['n_inner'] = pick(rng, [None, i(1, 30)])
        if rng.random() < .5:
            c['n_positions'] = i(1, 32)
    else:
        c.update(hidden_size=pick(rng, [heads * d, heads * d + i(0, heads - 1)]), num_attention_heads=heads, num_key_value_heads=kv, num_hidden_layers=layers)
        c[pick(rng, ['intermediate_size', 'ff_intermediate_size'])] = i(1, 30)
        c[pick(rng, ['rms_norm_eps', 'layer_norm_eps', 'layer_norm_epsilon']) if arch not in S.QK_NORM else 'rms_norm_eps'] = 1e-5
        if rng.random() < .15:
            c.pop('num_key_value_heads')
    if rng.random() < .1:
        c['head_dim'] = None
    elif arch not in ('GPT2LMHeadModel',) and rng.random() < .4:
        c['head_dim'] = 2 * i(1, 5)
    if rng.random() < .7:
        c['max_position_embeddings'] = i(1, 24)
    if rng.random() < .3:
        c['rotary_dim'] = 2 * i(1, 3)
    if rng.random() < .3:
        c['rope_theta'] = float(i(2, 20000))
    if rng.random() < .3:
        c['attention_bias'] = bool(i(0, 1))
    if rng.random() < .3:
        c['mlp_bias'] = bool(i(0, 1))
    if arch in ('Phi3ForCausalLM', 'Phi3SmallForCausalLM') and rng.random() < .8:
        c['model_type'] = pick(rng, ['phi3', 'phi3small'])
        if rng.random() < .3:
            c['hidden_act'] = 'gegelu'
    elif rng.random() < .5:
        c['model_type'] = 'llama'
    if c.get('hidden_act') == 'gegelu' and c.get('model_type') is None:
        c['hidden_act'] = 'silu'
    if arch in S.MOE or arch in S.MLA:
        for k, hi in ((pick(rng, ['num_experts', 'num_local_experts']), 9), ('num_experts_per_tok', 4), ('moe_intermediate_size', 20), ('shared_expert_intermediate_size', 20)):
            if rng.random() < .75:
                c[k] = i(1, hi)
        if 'moe_intermediate_size' in c and rng.random() < .3:
            c.pop('intermediate_size', c.pop('ff_intermediate_size', None))
    if arch in S.MLA:
        c['o_groups'] = i(1, heads)
        for k, lo, hi in (('q_lora_rank', 1, 9), ('o_lora_rank', 1, 9), ('rope_head_dim', 1, 4), ('window_size', 1, 12), ('compress_ratio', 0, 5), ('index_n_heads', 1, 4), ('index_head_dim', 1, 6), ('index_topk', 1, 6)):
            if rng.random() < .75:
                c[k] = i(lo, hi)
        c['compress_ratio'] = pick(rng, [0, 2, 4, 4])
    if arch.startswith('Qwen3_5') and rng.random() < .8:
        c['layer_types'] = [pick(rng, ['linear_attention', 'full_attention']) for _ in range(i(1, layers))]
        for k in ('linear_num_key_heads', 'linear_num_value_heads', 'linear_conv_kernel_dim'):
            if rng.random() < .7:
                c[k] = i(1, 5)
        dd = c.get('head_dim') or c['hidden_size'] // heads
        c['linear_key_head_dim'] = dd                     # the per-head norm weight is as wide as a head
        if rng.random() < .7:
            c['linear_value_head_dim'] = i(1, 9)
    if rng.random() < .2:
        c['final_logit_softcapping'] = pick(rng, [None, 30.0])
    if rng.random() < .2:
        c['attn_logit_softcapping'] = pick(rng, [None, 50.0])
    if rng.random() < .5:
        keys = list(c)
        rng.shuffle(keys)
        c = {str(k): c[k] for k in keys}
    return c


def own_map(c):
    return c['vocab_size'] % 3 == 0


def make(c, b, s, ctxlen=None, past=0):
    from onnx_tool.llm import Builder
    x = Builder(**copy.deepcopy(c))
    x.build_graph([b, s], V.weight_map()) if own_map(c) else x.build_graph([b, s])
    if ctxlen is not None:
        x.add_kv_cache(ctxlen, past)
    return x


def reference(c, b, s, ctxlen=None):
    m = S.Model(c, b, s, V.WMAP if own_map(c) else None).build()
    return m.cache(ctxlen) if ctxlen is not None else m


def plain(x):
    return json.loads(json.dumps(x, default=lambda o: o.item() if hasattr(o, 'item') else repr(o)))


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return '%s/%s: %s' % (path, k, 'unexpected' if k not in b else 'missing')
            d = diff(a[k], b[k], '%s/%s' % (path, k))
            if d:
                return d
        return None
    return None if a == b else '%s: %r, expected %r' % (path, a, b)


def check_structure(ctx, what, x, m, rep):
    got, want = plain(V.structure(x)), plain(V.want_structure(m))
    got.pop('order'), want.pop('order')
    d = diff(got, want)
    if d:
        ctx.fail('%s/structure' % what, d[:500], rep)
        return
    if not V.ordered(x.graph):
        ctx.fail('%s/order' % what, 'a node reads a tensor that is not available yet', rep)
    for n, v in m.data.items():
        if V.data(x.graph.tensormap[n]) != v:
            ctx.fail('%s/data' % what, '%s holds %s, expected %s' % (n, V.data(x.graph.tensormap[n]), v), rep)
    for n in m.nodes:
        d = x.graph.nodemap[n]
        for k, a in m.attrs[n].items():
            if getattr(d, k, None) != a:
                ctx.fail('%s/attribute' % what, '%s.%s is %r, expected %r' % (n, k, getattr(d, k, None), a), rep)


def check_figures(ctx, what, x, m, past, rep):
    d = diff(plain(V.figures(x)), plain(V.want_figures(m, past)))
    if d:
        ctx.fail('%s/figures' % what, d[:500], rep)


def check_rope(ctx, x, c, rep):
    t = x.graph.tensormap
    if 'rope.cos' not in t:
        return
    d = c.get('rotary_dim', x.head_size)
    pos, i = np.arange(t['rope.cos'].get_shape()[2]), np.arange(d // 2)
    ang = np.outer(pos, float(c.get('rope_theta', 10000.0)) ** (-2 * i / d))
    for n, f in (('rope.cos', np.cos), ('rope.sin', np.sin)):
        if np.shape(t[n].numpy) != (1, 1) + ang.shape or not np.all(np.abs(t[n].numpy[0, 0] - f(ang)) <= 1e-4 + 1e-6 * ang):      # angles are single precision
            ctx.fail('rope/table', '%s is not the rotation table of theta %s over %d dimensions' % (n, c.get('rope_theta', 10000.0), d), rep)


KINDS = ['FP32', 'FP16', 'INT8', 'INT4']


def setting(rng):
    cfg = {'Compute': {k: pick(rng, KINDS) for k in ('MM', 'MHA', 'Others')}, 'Bits': {k: pick(rng, [4, 4.5, 8, 16, 32]) for k in ('MM', 'MHA', 'Others')}}
    dev = {'FP32': float(rng.integers(1, 50)) * 10.0 ** -int(rng.integers(0, 7)), 'Bandwidth': float(rng.integers(1, 900)) * 10.0 ** -int(rng.integers(0, 7))}
    for k in KINDS[1:]:
        if rng.random() < .6:
            dev[k] = float(rng.integers(1, 200)) * 10.0 ** -int(rng.integers(0, 7))
    if rng.random() < .5:
        dev['LinkBandwidth'] = float(rng.integers(0, 3)) * 10.0 ** -int(rng.integers(0, 5))
    if rng.random() < .6:
        dev['Number'] = int(rng.integers(1, 9))
    return cfg, dev


DEFAULT = {'Compute': {'MM': 'FP32', 'MHA': 'FP32', 'Others': 'FP32'}, 'Bits': {'MM': 4.5, 'MHA': 16, 'Others': 32}}


def close(a, b):
    return abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-30


def check_estimate(ctx, what, x, m, past, cfg, dev, rep):
    c = cfg or DEFAULT
    d = None if dev is None else S.device(dev, c['Compute'])
    tot, held = [0, 0, 0], {'MM': 0, 'MHA': 0, 'Others': 0}
    for n, (op, ins, out) in m.nodes.items():
        macs, io, static = m.cost(n, past)
        e = S.estimate(op, macs, io, static, m.kv_elements(n, past) if op == 'SDPA' else 0, c['Bits'], d)
        p = x.graph.nodemap[n].llm_profile
        got = [p['FLOPs'], p['Memory']] + (list(p['Device']['latency']) if dev is not None else [])
        want = [e['flops'], e['memory']] + ([e['compute'], e['load'], e['latency'], e['sync']] if dev is not None else [])
        if len(got) != len(want) or not all(close(a, b) for a, b in zip(got, want)) or (dev is not None and not close(e['compute'], e['load']) and p['Device']['Bottleneck'] != e['bound']):
            ctx.fail('%s/estimate' % what, '%s (%s): %s, expected %s' % (n, op, p, e), rep)
            return
        tot[0] += e['flops']
        tot[1] += e['memory']
        tot[2] += e.get('latency', 0)
        held[e['group']] += e['held']
    if not all(close(a, b) for a, b in zip(x.llm_profile, tot)):
        ctx.fail('%s/estimate total' % what, '%s, expected %s' % (x.llm_profile, tot), rep)
    want = [held['MM'], held['MHA'], held['Others'], sum(held.values())]
    if not all(close(a, b) for a, b in zip(x.context_mem, want)):
        ctx.fail('%s/held memory' % what, '%s, expected %s' % (x.context_mem, want), rep)


def tables():
    import onnx_tool.llm as L
    from onnx_tool.device import Devices
    presets = {k: v for k, v in vars(L).items() if isinstance(v, dict) and 'architectures' in v}
    return copy.deepcopy([L.ArchMap, L.WeightMap, L.ActMap, presets, Devices, L.Builder.DefaultCfg])


def history(ctx, rng):
    """a sequence of builds: each yields what its own configuration says, and the shared tables stay as they were"""
    before = tables()
    confs = [config(rng) for _ in range(2)]
    if rng.random() < .5:                      # the same architecture with other switches
        confs[1] = config(rng, confs[0]['architectures'][0])
    rep = None
    todo = [confs[0], confs[1], confs[0]]
    alive = []
    for k, c in enumerate(todo):
        b, s = int(rng.integers(1, 4)), int(rng.integers(1, 9))
        past = int(rng.integers(0, 6))
        ctxlen = s + past + int(rng.integers(0, 9)) if rng.random() < .5 else None
        rep = {'builds': todo[:k + 1], 'batch': b, 'seq': s, 'context': ctxlen, 'past': past}
        ctx.eval((c, b, s, ctxlen, past), {'arch': c['architectures'], 'batch': b, 'seq': s, 'context': ctxlen})
        x = make(c, b, s, ctxlen, past)
        m = reference(c, b, s, ctxlen)
        p = past if ctxlen is not None else 0
        check_structure(ctx, 'build', x, m, rep)
        if x.kv_params != m.kv_params(p):
            ctx.fail('build/kv', 'KV cache of %s elements, expected %s' % (x.kv_params, m.kv_params(p)), rep)
        check_rope(ctx, x, c, rep)
        cfg, dev = setting(rng)
        for cf, dv in ((None, None), (cfg, None), (cfg, dev)):
            x.profile(cf, dv)
            check_figures(ctx, 'build', x, m, p, rep)
            check_estimate(ctx, 'build', x, m, p, cf, dv, dict(rep, config=cf, device=dv))
        alive.append((x, m, p, ctxlen, rep, b, s))
    if tables() != before:
        ctx.fail('history/tables', 'building changed the shared tables', rep)
    for x, m, p, ctxlen, rep, b, s in alive:                     # nothing moved in the models built earlier
        check_structure(ctx, 'history', x, m, rep)
        x.profile()
        check_figures(ctx, 'history', x, m, p, rep)
    x, m, p, ctxlen, rep, b, s = alive[0]
    if ctxlen is not None:
        past = int(rng.integers(0, ctxlen))
        s2 = int(rng.integers(1, ctxlen - past + 1))
        x.set_past_kv_length(past)
        x.graph.shape_infer(inputs={k: np.zeros([b, s2], np.int64) for k in ('ids', 'position') if k in x.graph.input})
        m2 = reference(confs[0], b, s2, ctxlen)
        rep = dict(rep, decode={'past': past, 'seq': s2})
        cfg, dev = setting(rng)
        x.profile(cfg, dev)
        check_figures(ctx, 'decode', x, m2, past, rep)
        check_estimate(ctx, 'decode', x, m2, past, cfg, dev, rep)
        got = {n: x.graph.tensormap[n].get_shape() for n in m2.tensors}
        d = diff(plain(got), plain(dict(m2.tensors)))
        if d:
            ctx.fail('decode/shapes', d[:400], rep)


def saved(ctx, rng):
    """the written file declares the same constants, nodes and shapes"""
    c = config(rng)
    b, s = int(rng.integers(1, 3)), int(rng.integers(1, 6))
    ctx.eval(('save', c, b, s))
    rep = {'builds': [c], 'batch': b, 'seq': s}
    x, m = make(c, b, s), reference(c, b, s)
    f = os.path.join(ctx.tmp, 'm.onnx')
    x.save_graph(f)
    p = onnx.load(f)
    got = {i.name: list(i.dims) for i in p.graph.initializer}
    d = {i.name: [e.dim_value for e in i.type.tensor_type.shape.dim] for i in list(p.graph.input) + list(p.graph.output) + list(p.graph.value_info)}
    want = {n: m.tensors[n] for n in list(m.constants) + list(m.data)}
    lost = [n for n in want if n not in got and n not in d]
    if lost:
        ctx.fail('save/constants', 'constants missing from the file: %s' % lost[:3], rep)
    for n, sh in want.items():
        if got.get(n, d.get(n, sh)) != sh:
            ctx.fail('save/constants', '%s is written with shape %s, expected %s' % (n, got.get(n, d.get(n)), sh), rep)
    nodes = {n.name: [n.op_type, list(n.input), list(n.output)] for n in p.graph.node}
    e = diff(plain(nodes), plain({n: [op, ins, [out]] for n, (op, ins, out) in m.nodes.items()}))
    if e:
        ctx.fail('save/nodes', e[:400], rep)
    check_structure(ctx, 'save', x, m, rep)
    os.remove(f)


def vision(ctx, rng):
    from onnx_tool.llm import Builder
    i = lambda a, b: int(rng.integers(a, b + 1))
    heads, d = i(1, 3), i(1, 5)
    c = {'architectures': ['Qwen3_5ForConditionalGeneration'], 'hidden_size': i(1, 20), 'num_attention_heads': 1, 'num_key_value_heads': 1, 'num_hidden_layers': 1,
         'intermediate_size': 4, 'vocab_size': 5, 'hidden_act': 'silu', 'rms_norm_eps': 1e-6, 'vision_hidden_size': heads * d, 'vision_num_layers': i(1, 3), 'vision_num_heads': heads, 'vision_patch_size': i(1, 5)}
    if rng.random() < .4:
        c['vision_head_dim'] = i(1, 6)
    if rng.random() < .5:
        c['vision_intermediate_size'] = i(1, 20)
    if rng.random() < .5:
        c['projector_hidden_dim'] = i(1, 20)
    if rng.random() < .5:
        c['projector_type'] = pick(rng, ['mlp', 'linear'])
    p = c['vision_patch_size']
    img = [i(1, 4), p + i(0, 3 * p), p + i(0, 3 * p)]
    ctx.eval(('vision', c, img))
    rep = {'config': c, 'image': img}
    x = Builder(**copy.deepcopy(c))
    x.build_vision_graph(img)
    m = S.Model(c, 1, None).vision(*img)
    check_structure(ctx, 'vision', x, m, rep)
    cfg, dev = setting(rng)
    x.profile(cfg, dev)
    check_figures(ctx, 'vision', x, m, 0, rep)
    check_estimate(ctx, 'vision', x, m, 0, cfg, dev, rep)
    h2, w2 = p + i(0, 3 * p), p + i(0, 3 * p)


def presets(ctx, rng):
    from onnx_tool.device import Devices
    todo = tables()[3]
    for name in sorted(todo):
        c = todo[name]
        c = dict(c)
        L = c.get('num_hidden_layers', c.get('n_layer'))
        b, s, past = int(rng.integers(1, 4)), int(rng.integers(1, 2000)), int(rng.integers(0, 2000))
        ctx.eval(('preset', name, b, s, past))
        rep = {'builds': [c], 'batch': b, 'seq': s, 'past': past}
        x, m = make(c, b, s, 4096, past), reference(c, b, s, 4096)
        check_structure(ctx, 'preset', x, m, rep)
        if x.kv_params != m.kv_params(past):
            ctx.fail('preset/kv', 'KV cache of %s elements, expected %s' % (x.kv_params, m.kv_params(past)), rep)
        dev = Devices[pick(rng, sorted(Devices))]
        cfg, _ = setting(rng)
        x.profile(cfg, dev)
        check_figures(ctx, 'preset', x, m, past, rep)
        check_estimate(ctx, 'preset', x, m, past, cfg, dev, dict(rep, config=cfg, device=dev))


def devices(ctx):
    from onnx_tool.device import Devices
    for n, d in Devices.items():
        ctx.eval(('device', n))
        if not all(isinstance(v, (int, float)) and v > 0 for k, v in d.items() if k in KINDS + ['Bandwidth', 'Number']) or 'FP32' not in d or 'Bandwidth' not in d:
            ctx.fail('device/figures', '%s: %s' % (n, d), n)


def run(ctx):
    rng = ctx.rng
    with ctx.section('architectures'):
        for arch in S.ARCHS:
            c = config(rng, arch)
            x, m = make(c, 2, 3), reference(c, 2, 3)
            ctx.eval(('arch', arch))
            check_structure(ctx, 'architecture', x, m, {'builds': [c], 'batch': 2, 'seq': 3})
    with ctx.section('histories of builds'):
        for _ in range(ctx.n(150, 3000)):
            if ctx.timeup():
                break
            history(ctx, rng)
    with ctx.section('saved files'):
        for _ in range(ctx.n(40, 600)):
            saved(ctx, rng)
    with ctx.section('vision towers'):
        for _ in range(ctx.n(80, 1000)):
            vision(ctx, rng)
    with ctx.section('presets'):
        presets(ctx, rng)
    with ctx.section('devices'):
        devices(ctx)
