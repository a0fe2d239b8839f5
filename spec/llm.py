"""What a language-model configuration determines, written from the published architectures and the tool's documentation:
constants, tensors, nodes, per-node costs, KV-cache figures, and the latency and memory formulas.

Sizes may be terms; the number of layers and the choices between architectures are concrete."""
from . import macs as M
from .sym import And, ite, Max, Min, prod, count

LLAMA = 'LlamaForCausalLM'
# which published architectures have which part
GATED_MLP = {LLAMA, 'Qwen2ForCausalLM', 'Qwen3ForCausalLM', 'Qwen3_5ForConditionalGeneration', 'Qwen3_5MoeForCausalLM', 'DeepSeekV4ForCausalLM', 'MiniMaxM2ForCausalLM'}
NORM_BIAS = {'PhiForCausalLM', 'GPTJForCausalLM', 'GPT2LMHeadModel'}
FUSED_QKV = {'Phi3ForCausalLM', 'Phi3SmallForCausalLM', 'GPT2LMHeadModel'}
QKV_BIAS = {'Qwen2ForCausalLM', 'Qwen3ForCausalLM', 'PhiForCausalLM', 'GPT2LMHeadModel'}
O_BIAS = {'PhiForCausalLM', 'GPT2LMHeadModel'}
MLP_BIAS = {'GPT2LMHeadModel'}
HEAD_BIAS = {'PhiForCausalLM'}
QK_NORM = {'Qwen3ForCausalLM', 'Qwen3_5ForConditionalGeneration', 'Qwen3_5MoeForCausalLM', 'MiniMaxM2ForCausalLM'}
GATED_ATTENTION = {'Qwen3_5ForConditionalGeneration', 'Qwen3_5MoeForCausalLM'}
MOE = {'Qwen3_5MoeForCausalLM', 'DeepSeekV4ForCausalLM', 'MiniMaxM2ForCausalLM'}
MLA = {'DeepSeekV4ForCausalLM'}
NO_SHARED_GATE = {'DeepSeekV4ForCausalLM'}
NO_SHARED_EXPERT = {'MiniMaxM2ForCausalLM'}
NO_ROPE = {'GPT2LMHeadModel'}
LEARNED_POSITIONS = {'GPT2LMHeadModel'}
ARCHS = [LLAMA, 'Qwen2ForCausalLM', 'Qwen3ForCausalLM', 'Qwen3_5ForConditionalGeneration', 'Qwen3_5MoeForCausalLM', 'DeepSeekV4ForCausalLM',
         'MiniMaxM2ForCausalLM', 'Phi3ForCausalLM', 'PhiForCausalLM', 'Phi3SmallForCausalLM', 'GPTJForCausalLM', 'GPT2LMHeadModel']
ACT = {'silu': 'Silu', 'gelu_new': 'Gelu', 'gegelu': 'GeGelu'}

NAMES = dict(embed='model.embed_tokens', pos='model.embed_positions', layer='model.layers.', norm1='input_layernorm', qkv='self_attn.qkv_proj', q='self_attn.q_proj',
             k='self_attn.k_proj', v='self_attn.v_proj', o='self_attn.o_proj', norm2='post_attention_layernorm', gate='mlp.gate_proj', up='mlp.up_proj',
             down='mlp.down_proj', gate_up='mlp.gate_up_proj', final='model.norm', head='lm_head')


class Model:
    """nodes: name -> (operator, operands, output); constants: name -> shape; data: small integer constants; tensors: name -> shape"""

    def __init__(self, cfg, batch, seq, names=None):
        self.cfg, self.b, self.s = cfg, batch, seq
        self.n = dict(NAMES, **(names or {}))
        self.nodes, self.constants, self.data, self.tensors, self.attrs = {}, {}, {}, {}, {}
        self.inputs = []
        arch = cfg['architectures'][0]
        self.arch = arch if arch in ARCHS else LLAMA
        get = lambda *keys: next((cfg[k] for k in keys if k in cfg), None)
        self.h = get('hidden_size', 'n_embd')
        self.layers = get('num_hidden_layers', 'n_layer')
        self.heads = get('num_attention_heads', 'n_head')
        self.kv_heads = cfg['n_head'] if 'n_head' in cfg else get('num_key_value_heads')
        if self.kv_heads is None:
            self.kv_heads = self.heads                   # every head has its own keys and values
        self.d = cfg['head_dim'] if cfg.get('head_dim') is not None else self.h // self.heads
        self.inter = get('intermediate_size', 'ff_intermediate_size', 'n_inner')
        if self.inter is None and 'n_embd' in cfg:
            self.inter = 4 * self.h
        self.act = get('hidden_act', 'activation_function')
        self.vocab = cfg['vocab_size']
        att = cfg.get('attention_bias')
        self.qkv_bias = self.arch in QKV_BIAS if att is None else att
        self.o_bias = self.arch in O_BIAS if att is None else att
        self.mlp_bias = cfg.get('mlp_bias', self.arch in MLP_BIAS)
        self.kv_dim = self.d if self.arch in MLA else self.d * self.kv_heads

    # -------------------------------------------------------------- pieces
    def const(self, name, shape):
        self.constants[name] = list(shape)
        self.tensors[name] = list(shape)
        return name

    def ints(self, name, values):
        self.data[name] = list(values)
        self.tensors[name] = [len(values)] if isinstance(values, (list, tuple)) else []
        return name

    def node(self, name, op, ins, shape, **attrs):
        self.nodes[name] = (op, list(ins), name + '.output')
        self.attrs[name] = attrs
        self.tensors[name + '.output'] = list(shape)
        return name + '.output'

    def feed(self, name, shape):
        if name not in self.inputs:
            self.inputs.append(name)
            self.tensors[name] = list(shape)
        return name

    def seq(self, width):
        return [self.b, self.s, width]

    def linear(self, name, x, fin, fout, bias):
        ins = [x, self.const(name + '.weight', [fin, fout])]
        if bias:
            ins.append(self.const(name + '.bias', [fout]))
        return self.node(name, 'MatMul', ins, self.tensors[x][:-1] + [fout])

    def norm(self, name, x, width=None, bias=None):
        ins = [x, self.const(name + '.weight', [self.h if width is None else width])]
        if (self.arch in NORM_BIAS and width is None) if bias is None else bias:
            ins.append(self.const(name + '.bias', [self.h if width is None else width]))
        return self.node(name, 'LayerNormalization', ins, self.tensors[x])

    def unary(self, name, op, x):
        return self.node(name, op, [x], self.tensors[x])

    def add(self, name, a, b, op='Add'):
        return self.node(name, op, [a, b], self.tensors[a])

    def cut(self, name, x, start, size):
        ins = [x] + [self.ints(name + '.' + k, [e]) for k, e in (('start', start), ('end', start + size), ('axis', 2), ('step', 1))]
        return self.node(name, 'Slice', ins, self.tensors[x][:2] + [size])

    def rope(self, name, x):
        rot = self.cfg.get('rotary_dim', self.d)
        tab = [1, 1, self.cfg.get('max_position_embeddings', 4096), rot // 2]
        return self.node(name, 'Rope', [x, self.const('rope.cos', tab), self.const('rope.sin', tab), self.feed('position', [self.b, self.s])], self.tensors[x])

    def heads_of(self, q, k, v, p):
        att = dict(head_num=self.heads, head_size=self.d, kv_head_num=self.kv_heads)
        return self.node(p + 'mha', 'SDPA', [q, k, v], self.seq(self.heads * self.d), **att)

    # -------------------------------------------------------------- layers
    def attention(self, p, x):
        n = self.n
        q, kv = self.heads * self.d, self.kv_heads * self.d
        gate = None
        if self.arch in GATED_ATTENTION:
            both = self.linear(p + n['q'], x, self.h, 2 * q, self.qkv_bias)
            k = self.linear(p + n['k'], x, self.h, kv, self.qkv_bias)
            v = self.linear(p + n['v'], x, self.h, kv, self.qkv_bias)
            xq, gate = self.cut(p + 'q.slice', both, 0, q), self.cut(p + 'gate.slice', both, q, q)
        elif self.arch in FUSED_QKV:
            both = self.linear(p + n['qkv'], x, self.h, q + 2 * kv, self.qkv_bias)
            xq, k, v = self.cut(p + 'q.slice', both, 0, q), self.cut(p + 'k.slice', both, q, kv), self.cut(p + 'v.slice', both, q + kv, kv)
        else:
            xq = self.linear(p + n['q'], x, self.h, q, self.qkv_bias)
            k = self.linear(p + n['k'], x, self.h, kv, self.qkv_bias)
            v = self.linear(p + n['v'], x, self.h, kv, self.qkv_bias)
        if self.arch in QK_NORM:
            xq, k = self.norm(p + 'self_attn.q_norm', xq, self.d), self.norm(p + 'self_attn.k_norm', k, self.d)
        if self.arch not in NO_ROPE:
            xq, k = self.rope(p + 'rope_q', xq), self.rope(p + 'rope_k', k)
        y = self.heads_of(xq, k, v, p)
        if gate is not None:
            y = self.add(p + 'attn.gated', y, self.unary(p + 'attn_gate.act', 'Silu', gate), 'Mul')
        return self.linear(p + n['o'], y, q, self.h, self.o_bias)

    def mla(self, p, x):
        c = self.cfg
        qr, orr, g = c.get('q_lora_rank', 1024), c.get('o_lora_rank', 1024), c.get('o_groups', 8)
        w = [('wq_a', [qr, self.h]), ('q_norm', [qr]), ('wq_b', [self.heads * self.d, qr]), ('wkv', [self.d, self.h]), ('kv_norm', [self.d]),
             ('wo_a', [g * orr, self.heads * self.d // g]), ('wo_b', [self.h, g * orr])]
        att = dict(dim=self.h, n_heads=self.heads, head_dim=self.d, q_lora_rank=qr, o_lora_rank=orr, o_groups=g, rope_head_dim=c.get('rope_head_dim', 64),
                   window_size=c.get('window_size', 128), compress_ratio=c.get('compress_ratio', 0), index_n_heads=c.get('index_n_heads', 64),
                   index_head_dim=c.get('index_head_dim', 128), index_topk=c.get('index_topk', 512))
        return self.node(p + 'mla', 'MLA', [x] + [self.const(p + k + '.weight', s) for k, s in w], self.seq(self.h), **att)

    def linear_attention(self, p, x):
        c, n = self.cfg, self.n
        nq, nv = c.get('linear_num_key_heads', self.kv_heads), c.get('linear_num_value_heads', self.kv_heads * 2)
        dq, dv = c.get('linear_key_head_dim', self.d), c.get('linear_value_head_dim', self.d)
        q = self.linear(p + n['q'], x, self.h, nq * dq, self.qkv_bias)
        k = self.linear(p + n['k'], x, self.h, nq * dq, self.qkv_bias)
        v = self.linear(p + n['v'], x, self.h, nv * dv, self.qkv_bias)
        q, k = self.norm(p + 'self_attn.q_norm', q, self.d), self.norm(p + 'self_attn.k_norm', k, self.d)
        att = dict(hidden_size=self.h, num_q_heads=nq, num_v_heads=nv, qk_head_dim=dq, v_head_dim=dv, conv_kernel=c.get('linear_conv_kernel_dim', 4))
        return self.node(p + 'gdn', 'GDN', [q, k, v], self.seq(self.h), **att)

    def experts(self, p, x):
        c = self.cfg
        ne, top = c.get('num_experts', c.get('num_local_experts', 256)), c.get('num_experts_per_tok', 8)
        mi = c.get('moe_intermediate_size', self.inter)
        si = c.get('shared_expert_intermediate_size', mi)
        w = [('router', [self.h, ne]), ('experts.gate', [ne, mi, self.h]), ('experts.up', [ne, mi, self.h]), ('experts.down', [ne, self.h, mi])]
        if self.arch not in NO_SHARED_EXPERT:
            w += [('shared.gate', [si, self.h]), ('shared.up', [si, self.h]), ('shared.down', [self.h, si])]
            if self.arch not in NO_SHARED_GATE:
                w += [('shared_gate', [self.h])]
        att = dict(hidden_size=self.h, moe_intermediate_size=mi, shared_expert_intermediate_size=si, num_experts=ne, num_experts_per_tok=top)
        return self.node(p + 'moe', 'MoE', [x] + [self.const(p + 'moe.' + k + '.weight', s) for k, s in w], self.seq(self.h), **att)

    def mlp(self, p, x):
        n = self.n
        if self.cfg.get('model_type') in ('phi3', 'phi3small'):
            y = self.linear(p + n['gate_up'], x, self.h, 2 * self.inter, self.mlp_bias)
            y = self.node(p + 'mlp.activation', 'GeGelu', [y], self.seq(self.inter))
        else:
            up = self.linear(p + n['up'], x, self.h, self.inter, self.mlp_bias)
            if self.arch in GATED_MLP:
                gate = self.linear(p + n['gate'], x, self.h, self.inter, self.mlp_bias)
                y = self.add(p + 'mlp.gate_mul', up, self.unary(p + 'mlp.activation', ACT[self.act], gate), 'Mul')
            else:
                y = self.unary(p + 'mlp.activation', ACT[self.act], up)
        return self.linear(p + n['down'], y, self.inter, self.h, self.mlp_bias)

    def layer(self, i, x):
        p = self.n['layer'] + str(i) + '.'
        types = self.cfg.get('layer_types')
        y = self.norm(p + self.n['norm1'], x)
        if types is not None and i < len(types) and types[i] == 'linear_attention':
            y = self.linear_attention(p, y)
        elif self.arch in MLA:
            y = self.mla(p, y)
        else:
            y = self.attention(p, y)
        x = self.add(p + 'attention_add', x, y)
        y = self.norm(p + self.n['norm2'], x)
        y = self.experts(p, y) if self.arch in MOE else self.mlp(p, y)
        return self.add(p + 'mlp_add', x, y)

    def embed(self, name, ids, rows):
        return self.node(name, 'Gather', [self.const(name + '.weight', [rows, self.h]), ids], self.seq(self.h))

    def build(self, numbers=None):
        """numbers: the layers in order (all of them)"""
        x = self.embed(self.n['embed'], self.feed('ids', [self.b, self.s]), self.vocab)
        if self.arch in LEARNED_POSITIONS:
            rows = self.cfg.get('n_positions', 1024)
            x = self.add('embedding_pos_add', self.embed(self.n['pos'], self.feed('position', [self.b, self.s]), rows), x)
        for i in range(self.layers) if numbers is None else numbers:
            x = self.layer(i, x)
        x = self.linear(self.n['head'], self.norm(self.n['final'], x), self.h, self.vocab, self.arch in HEAD_BIAS)
        cap = self.cfg.get('final_logit_softcapping')
        if cap is not None:
            c = 'models.final_logit_softcapping'
            self.data[c + '.weight'] = cap
            self.tensors[c + '.weight'] = []
            x = self.node(c, 'LogitSoftCapping', [x, c + '.weight'], self.tensors[x])
        self.outputs = [x]
        return self

    def cache(self, context):
        self.feed('n_past', [])
        self.feed('kv_cache', [self.b, self.layers * 2, context, self.kv_dim])
        for n, (op, ins, out) in self.nodes.items():
            if op == 'SDPA':
                ins.extend(['n_past', 'kv_cache'])
        return self

    def kv_params(self, past=0):
        """keys and values of every layer"""
        return self.b * (self.s + past) * self.kv_dim * 2 * self.layers

    # -------------------------------------------------------------- the vision tower
    def vision(self, c, height, width):
        g = lambda k, d: self.cfg.get('vision_' + k, d)
        self.b = 1
        h = g('hidden_size', 1024)
        heads, patch = g('num_heads', 16), g('patch_size', 14)
        d, inter = g('head_dim', h // heads), g('intermediate_size', h * 4)
        ph, pw = (height - patch) // patch + 1, (width - patch) // patch + 1
        np_ = ph * pw
        x = self.feed('pixel_values', [1, c, height, width])
        x = self.node('vision.patch_embed', 'Conv', [x, self.const('vision.patch_embed.weight', [h, c, patch, patch])], [1, h, ph, pw])
        x = self.node('vision.patch_reshape', 'Reshape', [x, self.ints('vision.patch_reshape.shape', [1, np_, h])], [1, np_, h])
        x = self.add('vision.pos_embed_add', x, self.const('vision.pos_embed', [1, np_, h]))
        w = heads * d
        for i in range(g('num_layers', 24)):
            p = 'vision.blocks.%d.' % i
            y = self.linear(p + 'attn.qkv', self.norm(p + 'ln1', x, h, True), h, 3 * w, True)
            q, k, v = (self.cut(p + 'attn.%s_slice' % e, y, j * w, w) for j, e in enumerate('qkv'))
            y = self.node(p + 'attn.sdpa', 'SDPA', [q, k, v], [1, np_, w], head_num=heads, head_size=d, kv_head_num=heads)
            x = self.add(p + 'attn_add', x, self.linear(p + 'attn.o', y, w, h, True))
            y = self.linear(p + 'mlp.fc1', self.norm(p + 'ln2', x, h, True), h, inter, True)
            x = self.add(p + 'mlp_add', x, self.linear(p + 'mlp.fc2', self.unary(p + 'mlp.gelu', 'Gelu', y), inter, h, True))
        x = self.norm('vision.post_ln', x, h, True)
        if self.cfg.get('projector_type', 'mlp') == 'mlp':
            mid = self.cfg.get('projector_hidden_dim', self.h)
            x = self.unary('vision.projector.gelu', 'Gelu', self.linear('vision.projector.fc1', x, h, mid, True))
            x = self.linear('vision.projector.fc2', x, mid, self.h, True)
        else:
            x = self.linear('vision.projector', x, h, self.h, True)
        self.outputs = [x]
        return self

    # -------------------------------------------------------------- costs
    def size(self, t):
        return count(self.tensors[t])

    def cost(self, name, past=0):
        """(multiply-accumulates, activations moved, constant elements touched)"""
        op, ins, out = self.nodes[name]
        a = self.attrs[name]
        fixed = sum([self.size(i) for i in ins if i in self.constants or i in self.data] + [0])
        io = self.size(out)
        o = self.tensors[out]
        x = self.tensors[ins[0]]
        if op == 'Gather':
            return 0, io, self.size(ins[1]) * self.tensors[ins[0]][-1]
        if op == 'MatMul':
            return M.matmul(x, o, len(ins) == 3), io, fixed
        if op == 'LayerNormalization':
            return M.layernorm(x, -1), io, fixed
        if op == 'Conv':
            return M.conv(self.tensors[ins[1]], o, False), io, fixed
        if op in ('Slice', 'Reshape'):
            return 0, io, fixed
        if op == 'Rope':
            tab = self.tensors[ins[1]]
            return M.per_element('Rope', o), io, 2 * Min(tab[2], self.s) * tab[3]
        if op == 'SDPA':
            return M.sdpa(o[0], o[1], a['head_num'], a['head_size'], past), io, fixed
        if op == 'MoE':
            return M.moe(self.b, self.s, self.h, a['moe_intermediate_size'], a['shared_expert_intermediate_size'], a['num_experts'], a['num_experts_per_tok'],
                         self.arch in NO_SHARED_GATE, self.arch in NO_SHARED_EXPERT)
        if op == 'MLA':
            return M.mla(self.b, self.s, self.h, a['n_heads'], a['head_dim'], a['q_lora_rank'], a['o_lora_rank'], a['o_groups'], a['rope_head_dim'],
                         a['window_size'], a['compress_ratio'], a['index_n_heads'], a['index_head_dim'], a['index_topk'])
        if op == 'GDN':
            return M.gdn(self.b, self.s, a['hidden_size'], a['num_q_heads'], a['num_v_heads'], a['qk_head_dim'], a['v_head_dim'], a['conv_kernel'])
        return M.per_element(op, o), io, fixed

    def params(self, name):
        return sum([self.size(i) for i in self.nodes[name][1] if i in self.constants or i in self.data] + [0])

    def total_params(self):
        """every constant once"""
        return sum([self.size(i) for i in list(self.constants) + list(self.data)] + [0])

    def kv_elements(self, name, past=0):
        a = self.attrs[name]
        o = self.tensors[name + '.output']
        return M.sdpa_kv(o[0], o[1], a['kv_head_num'], a['head_size'], past)


# ------------------------------------------------------------------ estimates
MATRIX = ('MatMul', 'MoE', 'MLA', 'GDN')


def estimate(op, macs, io, static, kv, bits, dev=None):
    """figures of one node. bits: MM, MHA, Others; dev: compute rates of MM, MHA, Others (per second), memory bandwidth, link bandwidth (bytes per second), devices"""
    flops = 2 * macs
    moved = io * bits['Others'] / 8
    if op == 'SDPA':
        held, group = kv * bits['MHA'] / 8, 'MHA'
    elif op in MATRIX:
        held, group = static * bits['MM'] / 8, 'MM'
    elif op == 'Gather':
        held, group = static * bits['MM'] / 8, 'Gather'
    else:
        held, group = static * bits['Others'] / 8, 'Others'
    r = {'flops': flops, 'memory': moved + held, 'held': held, 'group': {'Gather': 'MM'}.get(group, group)}
    if dev is not None:
        shared = group in ('MM', 'MHA')                     # split over the devices
        n = dev['number'] if shared else 1
        rate = dev[group] if shared else dev['Others']
        r['compute'] = flops / rate / n
        r['load'] = r['memory'] / dev['bandwidth'] / n
        r['sync'] = moved / dev['link'] if shared and dev['number'] > 1 else 0
        r['latency'] = Max(r['compute'], r['load']) + r['sync']
        r['bound'] = ite(r['compute'] > r['load'], 'Compute', 'Memory')
    return r


def device(d, kinds):
    """the figures a device table gives: rates default to FP32; without a link there is one device"""
    g = 1e9
    link = d.get('LinkBandwidth', 0) * g
    r = {k: d.get(kinds[k], d['FP32']) * g for k in ('MM', 'MHA', 'Others')}
    r.update(bandwidth=d['Bandwidth'] * g, link=link, number=d.get('Number', 1) if link else 1)
    return r
