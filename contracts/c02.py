"""Convolution, transposed convolution, pooling: complete for 1-3 spatial dimensions, all extents and attributes."""
import numpy as np
from pyvc.contract import Entry, Ten, op_case, NONE
from spec import shapes as S
from spec import macs as M
from spec.sym import And, Or, Not, Max

F, U8, I8, I32 = np.float32, np.uint8, np.int8, np.int32
AUTO = [None, 'NOTSET', 'SAME_UPPER', 'SAME_LOWER', 'VALID']


def window_attrs(v, nd, auto, given):
    """attributes present per `given` (subset of s, d, p, k), effective values"""
    st = [v.int('s%d' % a, 1) for a in range(nd)] if 's' in given else None
    di = [v.int('d%d' % a, 1) for a in range(nd)] if 'd' in given else None
    pd = [v.int('p%d' % a, 0) for a in range(2 * nd)] if 'p' in given and auto in (None, 'NOTSET') else None
    at = {}
    for n, x in (('strides', st), ('dilations', di), ('pads', pd), ('auto_pad', auto)):
        if x is not None:
            at[n] = x
    return at, st or [1] * nd, di or [1] * nd, pd or [0] * (2 * nd)


LEFT_OUT = 'left out'        # the operand's name is empty


def OPT(bias, shape, dt=F):
    return [NONE] if bias == LEFT_OUT else [Ten(shape, dt)] if bias else []


def conv(nd, auto, given, op='Conv', bias=False, want=('shape',)):
    def fn(v):
        at, st, di, pd = window_attrs(v, nd, auto, given)
        k = v.shape('k', nd)
        x = v.shape('x', nd)
        n, g, cg, co = v.ext('n'), (v.int('g', 1) if 'g' in given else 1), v.ext('c'), v.ext('co')
        if 'g' in given:
            at['group'] = g
        if 'k' in given:
            at['kernel_shape'] = k
        for a in range(nd):
            ke = (k[a] - 1) * di[a] + 1
            if auto not in ('SAME_UPPER', 'SAME_LOWER'):
                v.require(x[a] + pd[a] + pd[a + nd] >= ke)
        out = [n, co] + [S.conv_axis(x[a], k[a], st[a], di[a], pd[a], pd[a + nd], auto) for a in range(nd)]
        X, W = [n, g * cg] + x, [co, cg] + k
        if op == 'QLinearConv':
            ins = [Ten(X, U8), Ten([], F), Ten([], U8), Ten(W, I8), Ten([], F), Ten([], I8), Ten([], F), Ten([], U8)] + OPT(bias, [co], I32)
            dt = U8
        elif op == 'ConvInteger':
            ins, dt = [Ten(X, U8), Ten(W, I8)] + ([NONE, Ten([], I8)] if bias == LEFT_OUT else []), I32
        else:
            ins, dt = [Ten(X), Ten(W)] + OPT(bias, [co]), F
        return op_case(v, op, ins, at, 1, [out], [dt], M.conv(W, out, bias is True), want=want)
    return fn


def convt(nd, auto, given, bias=False, want=('shape',)):
    def fn(v):
        at, st, di, pd = window_attrs(v, nd, auto, given)
        k, x = v.shape('k', nd), v.shape('x', nd)
        n, g, cg, co = v.ext('n'), (v.int('g', 1) if 'g' in given else 1), v.ext('c'), v.ext('co')
        if 'g' in given:
            at['group'] = g
        op = [0] * nd
        if 'o' in given and auto in (None, 'NOTSET', 'VALID'):
            op = [v.int('o%d' % a, 0) for a in range(nd)]
            at['output_padding'] = op
        sp = [S.convt_axis(x[a], k[a], st[a], di[a], pd[a], pd[a + nd], op[a], auto) for a in range(nd)]
        if 'y' in given:
            sp = [v.int('y%d' % a, 1) for a in range(nd)]
            at['output_shape'] = sp
        for a in range(nd):
            v.require(sp[a] >= 1)
        out = [n, co * g] + sp
        W = [g * cg, co] + k
        return op_case(v, 'ConvTranspose', [Ten([n, g * cg] + x), Ten(W)] + OPT(bias, [co * g]), at, 1, [out], [F],
                       M.conv(W, out, bias is True), want=want)
    return fn


def pool(op, nd, auto, given, ceil, want=('shape',), indices=0):
    def fn(v):
        at, st, di, pd = window_attrs(v, nd, auto, given)
        k, x = v.shape('k', nd), v.shape('x', nd)
        n, c = v.ext('n'), v.ext('c')
        at['kernel_shape'] = k
        if ceil is not None:
            at['ceil_mode'] = ceil
        sp = [S.conv_axis(x[a], k[a], st[a], di[a], pd[a], pd[a + nd], auto, ceil) for a in range(nd)]
        for a in range(nd):
            if auto not in ('SAME_UPPER', 'SAME_LOWER'):
                v.require(x[a] + pd[a] + pd[a + nd] >= (k[a] - 1) * di[a] + 1)
            if ceil:
                v.require((sp[a] - 1) * st[a] < x[a] + pd[a])
        out = [n, c] + sp
        return op_case(v, op, [Ten([n, c] + x)], at, 1 + indices, [out] * (1 + indices), [F] + [np.int64] * indices, M.pool(out, k), want=want)
    return fn


def gap(r, want=('shape',)):
    def fn(v):
        s = v.shape('x', r)
        out = s[:2] + [1] * (r - 2)
        return op_case(v, 'GlobalAveragePool', [Ten(s)], {}, 1, [out], [F], M.gap(s, out), want=want)
    return fn


def subsets(tier, letters):
    if tier == 'thorough':
        n = len(letters)
        return [''.join(l for k, l in enumerate(letters) if m >> k & 1) for m in range(2 ** n)]
    return [letters, ''] + [letters.replace(l, '') for l in letters]


def family(tier, want=('shape',)):
    for nd in (1, 2, 3):
        for auto in AUTO:
            for given in subsets(tier, 'sdpgk'):
                if auto not in (None, 'NOTSET') and 'p' not in given and tier != 'thorough':
                    continue
                yield 'Conv/%dd/%s/%s' % (nd, auto, given or '-'), conv(nd, auto, given, want=want, bias=len(given) % 2 == 0)
            for given in subsets(tier, 'sdpgoy') if tier == 'thorough' else ['sdpgo', 'sdpgy', '', 'sdpg', 'dpgo', 'spgo', 'sdgo', 'sdpo', 'sdgy']:
                if 'y' in given and ('p' in given or 'o' in given) and tier == 'thorough':
                    continue
                g = given.replace('p', '').replace('o', '') if 'y' in given else given
                yield 'ConvTranspose/%dd/%s/%s' % (nd, auto, given or '-'), convt(nd, auto, g, want=want, bias=len(given) % 2 == 0)
            for op in ('MaxPool', 'AveragePool'):
                for ceil in (None, 0, 1) if auto in (None, 'NOTSET') else (None,):
                    for given in subsets(tier, 'sdp'):
                        yield '%s/%dd/%s/ceil=%s/%s' % (op, nd, auto, ceil, given or '-'), pool(op, nd, auto, given, ceil, want)
                    if op == 'MaxPool':
                        yield 'MaxPool/%dd/%s/ceil=%s/indices' % (nd, auto, ceil), pool(op, nd, auto, 'sdp', ceil, want, 1)
            for op in ('QLinearConv', 'ConvInteger'):
                yield '%s/%dd/%s' % (op, nd, auto), conv(nd, auto, 'sdpg', op, bias=op == 'QLinearConv' and nd % 2 == 1, want=want)
            if auto in (None, 'SAME_UPPER'):
                for op in ('Conv', 'ConvTranspose', 'QLinearConv', 'ConvInteger'):
                    f = convt(nd, auto, 'sdg', LEFT_OUT, want) if op == 'ConvTranspose' else conv(nd, auto, 'sdg', op, LEFT_OUT, want)
                    yield '%s/%dd/%s/operand left out' % (op, nd, auto), f
    for r in range(3, 8 if tier == 'thorough' else 7):
        yield 'GlobalAveragePool/rank%d' % r, gap(r, want)


def entries(tier):
    for name, fn in family(tier):
        yield Entry(name, ['C02'], fn)
