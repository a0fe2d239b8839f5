"""Contractions, recurrent layers, attention, normalisation: batch dimensions of any rank, every extent symbolic."""
import itertools
import numpy as np
from pyvc.contract import Entry, Case, Ten, NONE, op_case, bcast, count, lst
from spec import shapes as S
from spec import macs as M
from spec.sym import And, Or, Not, Max

F, F64, F16, I32, I8, U8 = np.float32, np.float64, np.float16, np.int32, np.int8, np.uint8


def either(a, b):
    """disjunction of a rejection condition over a sequence and a plain one"""
    if type(a).__name__ != 'Exists':
        return Or(a, b)
    return ('any', a, b)


def rank1(n):
    return n


def matmul(op, form, want, dt=F, bad=False):
    def fn(v):
        m, k, n = v.int('m', 0), v.ext('k'), v.int('n', 0)
        k2 = k
        rej = False
        if bad:
            k2 = v.ext('k2')
            rej = Not(k == k2)
        if form == 'nd':
            A, B = v.seq('a', 0), v.seq('b', 0)
            o, r = bcast(v, [A, B])
            if bad:                         # one reason to reject at a time: the batch dimensions agree here
                o, r = A.copy() if not v.native else list(A), False
                B = A
            else:
                rej = r
            a, b, out = A + [m, k], B + [k2, n], o + [m, n]
        elif form == 'vm':
            B = v.seq('b', 0)
            a, b, out = [k], B + [k2, n], B + [n]
        elif form == 'mv':
            A = v.seq('a', 0)
            a, b, out = A + [m, k], [k2], A + [m]
        else:
            a, b, out = [k], [k2], []
        c = count(v, out) * k
        if op == 'MatMul':
            return op_case(v, op, [Ten(a, dt), Ten(b, dt)], {}, 1, [out], [dt], c, rej, want=want)
        if op == 'MatMulInteger':
            ins = [Ten(a, U8), Ten(b, I8)] + ([Ten([], U8), Ten([], I8)] if dt is not F else [])
            return op_case(v, op, ins, {}, 1, [out], [I32], c, rej, want=want)
        od = dt if dt is not F else U8
        ins = [Ten(a, U8), Ten([]), Ten([], U8), Ten(b, I8), Ten([]), Ten([], I8), Ten([]), Ten([], od)]
        return op_case(v, op, ins, {}, 1, [out], [od], c, rej, want=want)
    return fn


def gemm(ta, tb, bias, want, dt=F):
    def fn(v):
        m, k, n, k2 = v.ext('m'), v.ext('k'), v.ext('n'), v.ext('k2')
        if v.native and v.rng is not None and v.rng.random() < .7:
            k2 = v.vals['k2'] = k
        at = {}
        if ta is not None:
            at['transA'] = ta
        if tb is not None:
            at['transB'] = tb
        a, b = [k, m] if ta else [m, k], [n, k2] if tb else [k2, n]
        ins = [Ten(a, dt), Ten(b, dt)]
        if bias == 'left out':
            ins.append(NONE)
        elif bias is not None:
            ins.append(Ten({'row': [n], 'full': [m, n], 'one': [1], 'col': [m, 1], 'scalar': []}[bias], dt))
        return op_case(v, 'Gemm', ins, at, 1, [[m, n]], [dt], M.gemm(k, [m, n], bias not in (None, 'left out')), Not(k == k2), want=want)
    return fn


EQS = ['ij,jk->ik', 'bij,bjk->bik', 'bhid,bhjd->bhij', 'ij->ji', 'ii->i', 'ii', 'ij', 'ij->', 'i,j->ij', 'i,i->', 'ij,jk', 'ba', 'abc->cab', 'ij,kj->ik',
       'i,ij,j->', 'bn,anm,bm->ba', '...ij,...jk->...ik', '...ij,jk->...ik', 'ij,...jk->...ik', '...ij,...jk', 'i...j->j...i', 'i...j,j->...i', '...->...', '...,...->...',
       'a...,b...->ab...', 'a...b,...bc->...ac', ' b i j , b j k -> b i k ', 'ij,jk,kl->il', 'ij,jk,kl', 'aabb->ab', 'zyx,xw->zyw', 'kj,ji', '...i,...i->...', 'i...,i...->i...', 'bxi,oij,byj->boxy']


def einsum(eq, ranks, want):
    """ranks: dims covered by the ellipsis of each operand; extents symbolic, ellipsis dims broadcast"""
    e = eq.replace(' ', '')
    lhs, arrow, rhs = e.partition('->')
    terms = lhs.split(',')

    def fn(v):
        labels = sorted(set(lhs) - set('.,'))
        d = {c: v.ext(c) for c in labels}
        shapes, ells = [], []
        for i, (t, r) in enumerate(zip(terms, ranks)):
            p = t.find('...')
            if p < 0:
                shapes.append([d[c] for c in t])
                continue
            x = v.shape('e%d_' % i, r)
            ells.append(x)
            shapes.append([d[c] for c in t[:p]] + x + [d[c] for c in t[p + 3:]])
        es, ok = S.bcast(ells) if ells else ([], True)
        v.require(ok)
        if arrow:
            p = rhs.find('...')
            out = [d[c] for c in rhs] if p < 0 else [d[c] for c in rhs[:p]] + es + [d[c] for c in rhs[p + 3:]]
        else:
            out = es + [d[c] for c in labels if lhs.count(c) == 1]
        mac = S.prod([d[c] for c in labels] + es)
        return op_case(v, 'Einsum', [Ten(s) for s in shapes], {'equation': eq}, 1, [out], [F], mac, want=want)
    return fn


def rnn(op, g, dirs, outs, hidden, bias, init, want, dt=F):
    def fn(v):
        t, b, i, h = v.ext('t'), v.ext('b'), v.ext('i'), v.ext('h')
        d = v.ext('d') if dirs is None else dirs
        x, w, r = [t, b, i], [d, g * h, i], [d, g * h, h]
        at = {'hidden_size': h} if hidden else {}
        if dirs == 2:
            at['direction'] = 'bidirectional'
        ins = [Ten(x, dt), Ten(w, dt), Ten(r, dt)]
        bs = [d, 2 * g * h] if bias else []
        if bias:
            ins.append(Ten(bs, dt))
            if init:
                ins += [NONE, Ten([d, b, h], dt)] + ([Ten([d, b, h], dt)] if op == 'LSTM' else [])
        sh = [[t, d, b, h], [d, b, h], [d, b, h]][:outs]
        mac = (M.lstm if op == 'LSTM' else M.gru)(x, w, r, bs)
        return op_case(v, op, ins, at, outs, sh, [dt] * outs, mac, want=want)
    return fn


def norm(op, build, want):
    def fn(v):
        ins, at, out, dt, mac, *more = build(v)
        return op_case(v, op, ins, at, 1 + len(more), [out] + [s for s, _ in more], [dt] + [t for _, t in more], mac, want=want)
    return fn


def att(op, four, want):
    def fn(v):
        b, h, s, d, kv = v.ext('b'), v.ext('h'), v.ext('s'), v.ext('d'), v.ext('kv')
        q = [b, h, s, d] if four else [b, s, h * d]
        ks = [b, kv, s, d] if four else [b, s, kv * d]
        return op_case(v, op, [Ten(q, F16), Ten(ks, F16), Ten(ks, F16)], {'head_num': h, 'head_size': d, 'kv_head_num': kv}, 1, [[b, s, h * d]], [F16],
                       M.sdpa(b, s, h, d), want=want)
    return fn


def family(tier, want=('shape',)):
    full = tier == 'thorough'
    for op in ('MatMul', 'MatMulInteger', 'QLinearMatMul'):
        for form in ('nd', 'vm', 'mv', 'vv'):
            for dt in {'MatMul': [F, F64, F16], 'MatMulInteger': [F, I32], 'QLinearMatMul': [F, I8]}[op]:
                yield '%s/%s/%s' % (op, form, np.dtype(dt).name), matmul(op, form, want, dt), ''
                yield '%s/%s/%s/inner extents differ' % (op, form, np.dtype(dt).name), matmul(op, form, want, dt, True), ''
    for ta in (None, 0, 1):
        for tb in (None, 0, 1):
            for bias in (None, 'row', 'full', 'one', 'col', 'scalar', 'left out'):
                for dt in (F, F64, F16) if full else (F,):
                    yield 'Gemm/transA=%s/transB=%s/bias %s/%s' % (ta, tb, bias, np.dtype(dt).name), gemm(ta, tb, bias, want, dt), ''
    for eq in EQS:
        terms = eq.replace(' ', '').partition('->')[0].split(',')
        n = sum('...' in t for t in terms)
        for rs in itertools.product(range(4 if full else 3), repeat=n):
            it = iter(rs)
            ranks = [next(it) if '...' in t else 0 for t in terms]
            yield 'Einsum/%s/%s' % (eq, list(rs)), einsum(eq, ranks, want), 'equation listed, ellipsis ranks %s' % (list(rs),)
    for op, g in (('LSTM', 4), ('GRU', 3)):
        for dirs in (1, 2, None):
            for outs in range(1, 4 if op == 'LSTM' else 3):
                for hidden in (0, 1):
                    for bias, init in ((0, 0), (1, 0), (1, 1)):
                        for dt in (F, F64) if full else (F,):
                            yield '%s/directions %s/%d outputs/hidden_size %d/bias %d/initial %d/%s' % (op, dirs, outs, hidden, bias, init, np.dtype(dt).name), \
                                rnn(op, g, dirs, outs, hidden, bias, init, want, dt), ''
    for dt in (F, F64, F16) if full else (F, F16):
        nm = np.dtype(dt).name

        def bn(v):
            s = v.seq('s', 0)
            v.require((len(s) if v.native else s.n) >= 2)
            c = Ten([s[1]], dt)
            return [Ten(s, dt), c, c, c, c], {'epsilon': 1e-3}, s, dt, count(v, s) * M.PER_ELEMENT['BatchNormalization']
        yield 'BatchNormalization/' + nm, norm('BatchNormalization', bn, want), ''

        def bn3(v):
            ins, at, s, _, mac = bn(v)
            c = ins[1].shape
            ins[3:] = [Ten(c, F), Ten(c, F)]
            return ins, dict(at, training_mode=1), s, dt, mac, (c, F), (c, F)
        yield 'BatchNormalization/running statistics/' + nm, norm('BatchNormalization', bn3, want), ''

        def inn(v):
            s = v.seq('s', 0)
            v.require((len(s) if v.native else s.n) >= 2)
            c = Ten([s[1]], dt)
            return [Ten(s, dt), c, c], {}, s, dt, count(v, s) * M.PER_ELEMENT['InstanceNormalization']
        yield 'InstanceNormalization/' + nm, norm('InstanceNormalization', inn, want), ''

        def lrn(v):
            s, z = v.seq('s', 0), v.ext('z')
            return [Ten(s, dt)], {'size': z}, s, dt, count(v, s) * (M.DIV + M.EXP + M.ADD + z * M.MUL)
        yield 'LRN/' + nm, norm('LRN', lrn, want), ''

        def ln(v):
            s = v.seq('s', 0)
            return [Ten(s, dt), Ten([v.ext('c')], dt)], {}, s, dt, None
        if want == ('shape',):
            yield 'LayerNormalization/any rank/' + nm, norm('LayerNormalization', ln, want), ''
        for r in range(1, 6):
            for ax in [None] + list(range(-r, r)):
                def lna(v, r=r, ax=ax):
                    s = v.shape('x', r)
                    lt = Ten(s[-1 if ax is None else ax:], dt)
                    return [Ten(s, dt), lt, lt], {} if ax is None else {'axis': ax}, s, dt, M.layernorm(s, -1 if ax is None else ax)
                yield 'LayerNormalization/rank%d/axis %s/%s' % (r, ax, nm), norm('LayerNormalization', lna, want), 'rank %d' % r
                for k in (1, 2):
                    def lnk(v, r=r, ax=ax, lna=lna, k=k):
                        ins, at, s, _, mac = lna(v)
                        a = (-1 if ax is None else ax) % r
                        return (ins, at, s, dt, mac) + ((s[:a] + [1] * (r - a), F),) * k
                    yield 'LayerNormalization/rank%d/axis %s/%d statistics/%s' % (r, ax, k, nm), norm('LayerNormalization', lnk, want), 'rank %d' % r
    for qd in (U8, I8):
        for form in ('scalar', 'channel', 'none'):
            if form == 'none' and qd is I8:
                continue

            def q(v, qd=qd, form=form):
                s = v.seq('s', 0)
                z = [] if form == 'scalar' else [v.ext('c')]
                ins = [Ten(s, F), Ten([], F)] if form == 'none' else [Ten(s, F), Ten(z, F), Ten(z, qd)]
                return ins, {}, s, qd, count(v, s) * M.PER_ELEMENT['QuantizeLinear']
            yield 'QuantizeLinear/%s/%s' % (np.dtype(qd).name, form), norm('QuantizeLinear', q, want), ''
    for qd in (U8, I8, I32):
        for zp in (0, 1):
            for sd in (F, F16):
                def dq(v, qd=qd, zp=zp, sd=sd):
                    s = v.seq('s', 0)
                    ins = [Ten(s, qd), Ten([], sd)] + ([Ten([], qd)] if zp else [])
                    return ins, {}, s, sd, count(v, s) * M.PER_ELEMENT['DequantizeLinear']
                yield 'DequantizeLinear/%s/%d/%s' % (np.dtype(qd).name, zp, np.dtype(sd).name), norm('DequantizeLinear', dq, want), ''
    for op in ('SDPA', 'GQA', 'MQA'):
        for four in (True, False):
            yield '%s/%s' % (op, '4-D' if four else '3-D'), att(op, four, want), ''


def entries(tier):
    for name, fn, bound in family(tier):
        yield Entry(name, ['C04'], fn, bound)
