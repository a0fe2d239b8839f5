"""Multiply-accumulate counts: the operator contracts of C01-C04 read for their cost, plus the fused layers."""
import numpy as np
from pyvc.contract import Entry, Case, Ten, op_case, count, lst, make_node, make_tensor, other_extents, with_history
from spec import macs as M
from spec import shapes as S
from . import c01, c02, c03, c04

F, I64 = np.float32, np.int64
W = ('macs',)


def direct(v, op, ins, outs, at, want, kv=None, static=()):
    """profile a node whose tensors already have their shapes"""
    others = other_extents(v, ins)
    oouts = [[d if isinstance(d, int) and d <= 1 else 2 * d for d in s] if isinstance(s, (list, tuple)) else s for s in outs]

    def fresh():
        return make_node(v.native, op, len(ins), len(outs), at)

    def infer(nd, other):
        it = [make_tensor(v.native, 'i%d' % k, t) for k, t in enumerate(others if other else ins)]
        ot = [make_tensor(v.native, 'o%d' % k, Ten(s)) for k, s in enumerate(oouts if other else outs)]
        nd.static_inputs = list(static)
        return nd.profile(it, ot)

    def observe(nd, r):
        return {'r': [x for x in r], 'kv': nd.kv_size if kv is not None else None}
    return Case(with_history(v, fresh, infer, observe), {'r': want, 'kv': kv}, False, {'op': op, 'attrs': at, 'inputs': [t.shape for t in ins]})


def sdpa(op, four, cache):
    def fn(v):
        b, s, n, h, kv = v.ext('b'), v.ext('s'), v.ext('n'), v.ext('h'), v.ext('kv')
        q = [b, n, s, h] if four else [b, s, n * h]
        ins = [Ten(q), Ten([b, s, kv * h]), Ten([b, s, kv * h])]
        past = 0
        if cache:
            past = v.int('past', 0)
            if cache == 'scalar':
                ins.append(Ten([], I64, past))
            else:                               # the longest history in the batch counts
                ps = [past, v.int('p1', 0), v.int('p2', 0)]
                v.require(ps[1] <= past)
                v.require(ps[2] <= past)
                ins.append(Ten([3], I64, ps[::-1] if cache == 'last' else ps))
            ctx = v.int('ctx', 1)
            v.require(ctx >= past + s)
            ins.append(Ten([b, 2, ctx, kv * h]))
        out = [b, s, n * h]
        return direct(v, op, ins, [out], {'head_num': n, 'head_size': h, 'kv_head_num': kv}, [M.sdpa(b, s, n, h, past), S.prod(out), 0],
                      M.sdpa_kv(b, s, kv, h, past))
    return fn


def overflow(op):
    """a history that does not fit the cache is rejected"""
    def fn(v):
        b, s, n, h, past, ctx = v.ext('b'), v.ext('s'), v.ext('n'), v.ext('h'), v.int('past', 0), v.ext('ctx')
        c = direct(v, op, [Ten([b, s, n * h])] * 3 + [Ten([], I64, past), Ten([b, 2, ctx, n * h])], [[b, s, n * h]],
                   {'head_num': n, 'head_size': h, 'kv_head_num': n}, [M.sdpa(b, s, n, h, past), b * s * n * h, 0], M.sdpa_kv(b, s, n, h, past))
        c.reject = ctx < past + s
        return c
    return fn


def moe(ng, ns, default=False):
    def fn(v):
        b, s = v.ext('b'), v.ext('s')
        if default:
            return direct(v, 'MoE', [Ten([b, s, 2048])], [[b, s, 2048]], {}, list(M.moe(b, s, 2048, 512, 512, 256, 8, False, False)))
        h, it, sh, e, k = v.ext('h'), v.ext('it'), v.ext('sh'), v.ext('e'), v.ext('k')
        at = {'hidden_size': h, 'moe_intermediate_size': it, 'shared_expert_intermediate_size': sh, 'num_experts': e,
              'num_experts_per_tok': k, 'no_shared_gate': ng, 'no_shared_expert': ns}
        return direct(v, 'MoE', [Ten([b, s, h])], [[b, s, h]], at, list(M.moe(b, s, h, it, sh, e, k, ng, ns)))
    return fn


def gdn(v):
    b, s, h, nq, nv, dq, dv, k = [v.ext(x) for x in ('b', 's', 'h', 'nq', 'nv', 'dq', 'dv', 'k')]
    at = {'hidden_size': h, 'num_q_heads': nq, 'num_v_heads': nv, 'qk_head_dim': dq, 'v_head_dim': dv, 'conv_kernel': k}
    return direct(v, 'GDN', [Ten([b, s, nq * dq]), Ten([b, s, nq * dq]), Ten([b, s, nv * dv])], [[b, s, h]], at, list(M.gdn(b, s, h, nq, nv, dq, dv, k)))


def gdn_default(v):
    b, s = v.ext('b'), v.ext('s')
    return direct(v, 'GDN', [Ten([b, s, 2048]), Ten([b, s, 2048]), Ten([b, s, 4096])], [[b, s, 2560]], {}, list(M.gdn(b, s, 2560, 16, 32, 128, 128, 4)))


MLA_AT = ['dim', 'n_heads', 'head_dim', 'q_lora_rank', 'o_lora_rank', 'o_groups', 'rope_head_dim', 'window_size', 'compress_ratio',
          'index_n_heads', 'index_head_dim', 'index_topk']


def mla(cr, default=False):
    def fn(v):
        b, s = v.ext('b'), v.ext('s')
        if default:
            return direct(v, 'MLA', [Ten([b, s, 4096])], [[b, s, 4096]], {}, list(M.mla(b, s, 4096, 64, 512, 1024, 1024, 8, 64, 128, 0, 64, 128, 512)))
        d, hd, qr, orr, g, rd, w, inn, ind, tk, npg = [v.ext(x) for x in ('d', 'hd', 'qr', 'or', 'g', 'rd', 'w', 'in', 'id', 'tk', 'npg')]
        n = g * npg                              # the heads divide into the groups
        at = dict(zip(MLA_AT, [d, n, hd, qr, orr, g, rd, w, cr, inn, ind, tk]))
        return direct(v, 'MLA', [Ten([b, s, d])], [[b, s, d]], at, list(M.mla(b, s, d, n, hd, qr, orr, g, rd, w, cr, inn, ind, tk)))
    return fn


def embed(q):
    def fn(v):
        n, h, ids = v.ext('n'), v.ext('h'), v.shape('i', q)
        return direct(v, 'Gather', [Ten([n, h]), Ten(ids, I64)], [ids + [h]], {'axis': 0}, [0, S.prod(ids) * h, S.prod(ids) * h])
    return fn


def rope(v):
    s = v.seq('s', 1)
    v.require((len(s) if v.native else s.n) >= 1)
    c = count(v, s)
    return direct(v, 'Rope', [Ten(s)], [s], {}, [c * M.ROPE, c, 0])


def rope_tables(v):
    b, s, h, mx, half = v.ext('b'), v.ext('s'), v.ext('h'), v.ext('mx'), v.ext('half')
    used = S.prod([half]) * (M.Min(s, mx))
    return direct(v, 'Rope', [Ten([b, s, h]), Ten([1, 1, mx, half]), Ten([1, 1, mx, half])], [[b, s, h]], {}, [b * s * h * M.ROPE, b * s * h, 2 * used], static=(1, 2))


def moved(op, n_in, at=None, per=0):
    """cost depends on the output volume alone"""
    def fn(v):
        o = v.seq('o', 0)
        ins = [Ten(v.seq('s%d' % k, 0)) for k in range(n_in)]
        c = count(v, o)
        return direct(v, op, ins, [o], at or {}, [c * per, c, 0])
    return fn


def entries(tier):
    for name, fn, bound in c01.family(tier, W):
        yield Entry(name, ['C06'], fn, bound)
    yield Entry('PRelu', ['C06'], c01.prelu(W))
    for name, fn in c02.family(tier, W):
        yield Entry(name, ['C06'], fn)
    for name, fn, bound in c03.family(tier, W):
        yield Entry(name, ['C06'], fn, bound)
    for name, fn, bound in c04.family(tier, W):
        if 'inner extents differ' not in name:
            yield Entry(name, ['C06'], fn, bound)
    for op in ('SDPA', 'GQA', 'MQA'):
        for four in (False, True):
            for cache in (None, 'scalar', 'first', 'last'):
                yield Entry('%s/%s/cache %s' % (op, '4-D' if four else '3-D', cache), ['C06'], sdpa(op, four, cache), 'batch of 3 histories' if cache in ('first', 'last') else '')
        yield Entry('%s/history exceeds the cache' % op, ['C06'], overflow(op))
    for ng in (False, True):
        for ns in (False, True):
            yield Entry('MoE/no gate %s/no shared expert %s' % (ng, ns), ['C06'], moe(ng, ns))
    yield Entry('MoE/defaults', ['C06'], moe(0, 0, True))
    yield Entry('GDN', ['C06'], gdn)
    yield Entry('GDN/defaults', ['C06'], gdn_default)
    for cr in (0, 1, 2, 3, 4, 8, 128):
        yield Entry('MLA/compression %d' % cr, ['C06'], mla(cr), 'compression ratio %d' % cr if cr else '')
    yield Entry('MLA/defaults', ['C06'], mla(0, True))
    for q in range(1, 4):
        yield Entry('Gather/embedding rank %d' % q, ['C06'], embed(q))
    yield Entry('Rope', ['C06'], rope)
    yield Entry('Rope/tables', ['C06'], rope_tables)
    for op, n in (('Compress', 2), ('ArrayFeatureExtractor', 2), ('ZipMap', 1), ('RandomUniformLike', 1), ('RandomNormalLike', 1), ('NonMaxSuppression', 3),
                  ('Constant', 0), ('Reshape', 2), ('Transpose', 1), ('Shape', 1), ('Range', 3), ('Identity', 1), ('Where', 3), ('Cast', 1)):
        yield Entry('moved/%s' % op, ['C06'], moved(op, n, {'to': 1} if op == 'Cast' else {'value': 1.} if op == 'Constant' else None))
    for op, n, per in (('NonZero', 1, M.CMP), ('CategoryMapper', 1, 0), ('GeGelu', 1, M.EXP + 2 * M.MUL), ('Equal', 2, 1), ('CumSum', 2, 1)):
        yield Entry('volume/%s' % op, ['C06'], moved(op, n, None, per))
