"""What a built language model shows: used on terms by the contracts (c16) and on numbers by the bounded run."""
import numpy as np

WMAP = dict(embed='emb', pos='wpe', layer='h_', norm1='n1', qkv='attn.c_attn', q='attn.query', k='attn.key', v='attn.value', o='attn.out', norm2='n2', gate='ff.gate',
            up='ff.up', down='ff.down', gate_up='ff.gu', final='ln_f', head='out')


def weight_map():
    """a map with names of its own"""
    w = WMAP
    return {'embedding': {'embed': w['embed'], 'pos': w['pos']}, 'layer_prefix': w['layer'],
            'attention': dict({k: w[k] for k in ('qkv', 'q', 'k', 'v', 'o')}, input_norm=w['norm1'], output_norm='post_attn'),
            'mlp': dict({k: w[k] for k in ('gate', 'up', 'down', 'gate_up')}, input_norm=w['norm2'], output_norm='post_ff'),
            'lm_head': {'input_norm': w['final'], 'lm': w['head']}}


def data(t):
    return [x for x in t.numpy.reshape(-1).tolist()] if t.numpy.shape else t.numpy.tolist()


def structure(b, big=64):
    """nodes, constants with their shapes, shapes of every tensor, inputs and outputs"""
    from onnx_tool.tensor import STATIC_TENSOR
    g = b.graph
    static = [n for n, t in g.tensormap.items() if t.type == STATIC_TENSOR]
    r = {'nodes': {n: [d.op_type, list(d.input), list(d.output)] for n, d in g.nodemap.items()},
         'order': list(g.nodemap), 'inputs': list(g.input), 'outputs': list(g.output), 'initials': sorted(g.initials), 'static': sorted(static),
         'shapes': {n: [e for e in t.get_shape()] for n, t in g.tensormap.items()}}
    return r


def want_structure(m):
    consts = sorted(list(m.constants) + list(m.data))
    return {'nodes': {n: [op, list(ins), [out]] for n, (op, ins, out) in m.nodes.items()}, 'order': None, 'inputs': m.inputs, 'outputs': m.outputs,
            'initials': consts, 'static': consts, 'shapes': {n: list(s) for n, s in m.tensors.items()}}


def ordered(g):
    """every operand is there before it is read"""
    have = set(g.input) | set(g.initials)
    for d in g.nodemap.values():
        if any(i not in have for i in d.input):
            return False
        have.update(d.output)
    return True


def figures(b):
    g = b.graph
    r = {n: [d.macs, d.io_params, d.static_params, d.params] for n, d in g.nodemap.items()}
    return {'nodes': r, 'macs': g.macs[0], 'params': g.params, 'once': g.dedup_params, 'kv': {n: d.kv_size for n, d in g.nodemap.items() if d.op_type == 'SDPA'}}


def want_figures(m, past=0):
    c = {n: list(m.cost(n, past)) + [m.params(n)] for n in m.nodes}
    return {'nodes': c, 'macs': sum(x[0] for x in c.values()), 'params': sum(x[3] for x in c.values()), 'once': m.total_params(),
            'kv': {n: m.kv_elements(n, past) for n in m.nodes if m.nodes[n][0] == 'SDPA'}}
