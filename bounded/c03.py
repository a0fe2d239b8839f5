"""Layout, indexing and reduction operators: shapes against ONNX definitions."""
import fractions
import math
import numpy as np
from . import opgen as og
from .opgen import SH, R, pick
from spec import shapes as S

# generators whose every case the reference evaluator accepts and resolves as the standard says
REF = ['Transpose', 'Concat', 'Reshape', 'Flatten', 'Gather', 'GatherND', 'ScatterND', 'ScatterElements', 'Split', 'Pad', 'Expand', 'Tile',
       'ReduceMean', 'ReduceSum', 'ReduceMax', 'ReduceMin', 'ReduceProd', 'ReduceL2', 'ArgMax', 'TopK', 'Resize', 'DepthToSpace',
       'ConstantOfShape', 'Range', 'Shape', 'Cast', 'Trilu', 'Compress', 'Dropout', 'GridSample', 'RoiAlign', 'Constant']
DT = [np.float32, np.float32, np.float64, np.int32, np.int64, np.int8, np.bool_]


def ext(rng, r, zero=True):
    return [og.big(rng, zero=zero) for _ in range(r)]


def I(v):
    return np.asarray(v, np.int64)


def neg(rng, a, r):
    return a - r if rng.random() < .5 else a


def gens(rng, i):
    """one case per call: (op, inputs, attrs, wanted shapes, wanted dtypes)"""
    dt = pick(rng, DT)
    r = R(rng, 1, 6)
    s = ext(rng, r)
    x = SH(s, dt)

    def transpose():
        p = [int(v) for v in rng.permutation(r)]
        d = rng.random() < .2
        return 'Transpose', [x], {} if d else {'perm': p}, [s[::-1] if d else [s[a] for a in p]], [dt]

    def concat():
        a = R(rng, 0, r - 1)
        sh = []
        for _ in range(R(rng, 1, 5)):
            t = list(s)
            t[a] = og.big(rng, zero=True)
            sh.append(t)
        ax = neg(rng, a, r)
        return 'Concat', [SH(t, dt) for t in sh], {'axis': ax}, [S.concat(sh, ax)], [dt]

    def split():
        a = R(rng, 0, r - 1)
        n = R(rng, 1, 6)
        at = {'axis': neg(rng, a, r)}
        if a == 0 and rng.random() < .3:
            at = {}
        t = list(s)
        u = rng.random()
        if u < .3:
            c = og.big(rng)
            t[a] = n * c
            parts = [c] * n
            ins = [SH(t, dt)]
        elif u < .45:  # uneven, chunks of ceil(d/n) that fit
            n = R(rng, 2, 6)
            c = R(rng, 2, 50)
            last = R(rng, 1, c - 1)
            t[a] = (n - 1) * c + last
            if -(-t[a] // n) != c:
                t[a], parts = n * c, [c] * n
            else:
                parts = [c] * (n - 1) + [last]
            ins = [SH(t, dt)]
        else:
            parts = [R(rng, 0 if rng.random() < .1 else 1, 9) for _ in range(n)]
            t[a] = sum(parts)
            ins = [SH(t, dt)]
            if u < .7:
                at['split'] = parts
            else:
                ins.append(I(parts))
        return 'Split', ins, at, S.split(t, a, parts), [dt] * n

    def slice_():
        k = R(rng, 1, r)
        ax = [int(v) for v in rng.permutation(r)[:k]]
        mode = R(rng, 0, 6)
        if mode in (0, 4):
            ax = list(range(k))
        st, en, sp = [], [], []
        for a in ax:
            d = s[a]
            negs = mode >= 5 and rng.random() < .6 and d > 0
            big_ = rng.random() < .25
            st.append(pick(rng, [2 ** 31 - 1, -2 ** 31, 2 ** 62]) if big_ else R(rng, -2 * d - 2, 2 * d + 2))
            en.append(pick(rng, [2 ** 31 - 1, -2 ** 31, 2 ** 62]) if rng.random() < .25 else R(rng, -2 * d - 2, 2 * d + 2))
            step = R(rng, 1, 5) if mode >= 4 else 1
            sp.append(-step if negs else step)
        out = list(s)
        for a, b, e, p in zip(ax, st, en, sp):
            out[a] = S.slice_axis(s[a], b, e, p)
        nax = [neg(rng, a, r) for a in ax]
        it = np.int64
        A = lambda v: np.asarray(v, it)
        if mode == 0:
            return 'Slice', [x, A(st), A(en)], {}, [out], [dt]
        if mode == 1:
            return 'Slice', [x], {'starts': st, 'ends': en, 'axes': ax}, [out], [dt]
        if mode == 2:
            return 'Slice', [x, A(st), A(en), A(nax)], {}, [out], [dt]
        if mode == 4:
            return 'Slice', [x, A(st), A(en), None, A(sp)][:3] if all(v == 1 for v in sp) else [x, A(st), A(en), A(ax), A(sp)], {}, [out], [dt]
        return 'Slice', [x, A(st), A(en), A(nax), A(sp)], {}, [out], [dt]

    def slice_attr_noaxes():
        st, en = [R(rng, -5, 5)], [R(rng, -5, 9)]
        return 'Slice', [x], {'starts': st, 'ends': en}, [[S.slice_axis(s[0], st[0], en[0], 1)] + s[1:]], [dt]

    def gather():
        a = R(rng, -r, r - 1)
        ix = ext(rng, R(rng, 0, 3))
        at = {} if a == 0 and rng.random() < .5 else {'axis': a}
        return 'Gather', [x, SH(ix, np.int64)], at, [S.gather(s, ix, a)], [dt]

    def gather_el():
        a = R(rng, -r, r - 1)
        t = list(s)
        t[a] = og.big(rng)
        at = {} if a == 0 and rng.random() < .5 else {'axis': a}
        return 'GatherElements', [x, SH(t, np.int64)], at, [t], [dt]

    def gathernd():
        b = R(rng, 0, r - 1)
        q = R(rng, 1, r - b)
        ix = s[:b] + ext(rng, R(rng, 0, 2)) + [q]
        at = {} if b == 0 and rng.random() < .6 else {'batch_dims': b}
        return 'GatherND', [x, SH(ix, np.int64)], at, [S.gathernd(s, ix, b, q)], [dt]

    def scatter():
        if rng.random() < .5:
            q = R(rng, 1, r)
            m = ext(rng, R(rng, 0, 2))
            return 'ScatterND', [x, SH(m + [q], np.int64), SH(m + s[q:], dt)], {}, [s], [dt]
        a = R(rng, -r, r - 1)
        t = [min(d, og.big(rng)) for d in s]
        return 'ScatterElements', [x, SH(t, np.int64), SH(t, dt)], {'axis': a}, [s], [dt]

    def pad():
        p = [R(rng, 0, 7) for _ in range(2 * r)]
        if rng.random() < .2:
            p = [R(rng, -1, 3) if d > 4 else q for d, q in zip(s + s, p)]
        at = pick(rng, [{}, {'mode': 'edge'}, {'mode': 'reflect'}, {'mode': 'constant'}])
        if rng.random() < .4:
            return 'Pad', [x], dict(at, pads=p), [S.pad(s, p)], [dt]
        return 'Pad', [x, I(p)] + ([np.asarray(1, dt)] if rng.random() < .4 else []), at, [S.pad(s, p)], [dt]

    def tile():
        t = [R(rng, 1, 4) for _ in range(R(rng, 1, 4))]
        rp = [R(rng, 1, 3) for _ in t]
        return 'Tile', [SH(t, dt), I(rp)], {}, [[a * b for a, b in zip(t, rp)]], [dt]

    def expand():
        full = ext(rng, r, False)
        a = [1 if rng.random() < .4 else d for d in full[R(rng, 0, r):]]
        b = [1 if rng.random() < .4 else d for d in full[R(rng, 0, r - 1):]]
        return 'Expand', [SH(a, dt), I(b)], {}, [S.bcast([a, b])[0]], [dt]

    def squeeze():
        t = [1 if rng.random() < .5 else d for d in s]
        ones = [a for a, d in enumerate(t) if d == 1]
        if not ones:
            t[0], ones = 1, [0]
        u = rng.random()
        if u < .15:
            return 'Squeeze', [SH(t, dt)], {}, [[d for d in t if d != 1]], [dt]
        ax = [neg(rng, int(a), r) for a in rng.permutation(ones)[:R(rng, 1, len(ones))]]
        want = S.squeeze(t, ax)
        if u < .5:
            return 'Squeeze', [SH(t, dt)], {'axes': ax}, [want], [dt]
        return 'Squeeze', [SH(t, dt), I(ax)], {}, [want], [dt]

    def unsqueeze():
        t = s[:R(rng, 0, r)]
        k = R(rng, 1, 3)
        q = len(t) + k
        ax = [neg(rng, int(a), q) for a in rng.permutation(q)[:k]]
        want = S.unsqueeze(t, ax)
        if rng.random() < .4:
            return 'Unsqueeze', [SH(t, dt)], {'axes': ax}, [want], [dt]
        return 'Unsqueeze', [SH(t, dt), I(ax)], {}, [want], [dt]

    def flatten():
        t = [R(rng, 1, 5) for _ in range(R(rng, 1, 4))]
        a = R(rng, -len(t), len(t))
        d = rng.random() < .3
        return 'Flatten', [SH(t, dt)], {} if d else {'axis': a}, [S.flatten(t, 1 if d else a)], [dt]

    def reshape():
        t = ext(rng, r, False)
        tot = S.prod(t)
        # regroup consecutive axes, optionally hide one group behind -1 and copy leading axes with 0
        cuts = sorted(int(v) for v in rng.permutation(r - 1)[:R(rng, 0, r - 1)] + 1) if r > 1 else []
        grp = [S.prod(t[a:b]) for a, b in zip([0] + cuts, cuts + [r])]
        if rng.random() < .4:
            grp.insert(R(rng, 0, len(grp)), 1)
        tgt = list(grp)
        for k in range(len(tgt)):
            if k < r and tgt[k] == t[k] and rng.random() < .5:
                tgt[k] = 0
        if rng.random() < .7:
            k = R(rng, 0, len(tgt) - 1)
            tgt[k] = -1
        return 'Reshape', [SH(t, dt), I(tgt)], {}, [S.reshape(t, tgt)], [dt]

    def reduce_():
        op = pick(rng, ['ReduceMean', 'ReduceSum', 'ReduceMax', 'ReduceMin', 'ReduceProd'])
        k = R(rng, 1, r)
        ax = [neg(rng, int(v), r) for v in rng.permutation(r)[:k]]
        at = {} if rng.random() < .3 else {'keepdims': R(rng, 0, 1)}
        u = rng.random()
        kd = at.get('keepdims', 1)
        if u < .2:
            return op, [SH(s)], at, [S.reduce(s, None, kd)], [np.float32]
        if u < .6:
            return op, [SH(s), I(ax)], at, [S.reduce(s, ax, kd)], [np.float32]
        return op, [SH(s)], dict(at, axes=ax), [S.reduce(s, ax, kd)], [np.float32]

    def reducel2():
        t = [R(rng, 1, 4) for _ in range(R(rng, 1, 4))]
        ax = [neg(rng, int(v), len(t)) for v in rng.permutation(len(t))[:R(rng, 1, len(t))]]
        at = {} if rng.random() < .3 else {'keepdims': R(rng, 0, 1)}
        kd = at.get('keepdims', 1)
        if rng.random() < .2:
            return 'ReduceL2', [SH(t)], at, [S.reduce(t, None, kd)], [np.float32]
        if rng.random() < .4:
            return 'ReduceL2', [SH(t), I(ax)], at, [S.reduce(t, ax, kd)], [np.float32]
        return 'ReduceL2', [SH(t)], dict(at, axes=ax), [S.reduce(t, ax, kd)], [np.float32]

    def argmax():
        t = [R(rng, 1, 4) for _ in range(R(rng, 1, 4))]
        at = {}
        if rng.random() < .8:
            at['axis'] = R(rng, -len(t), len(t) - 1)
        if rng.random() < .6:
            at['keepdims'] = R(rng, 0, 1)
        return 'ArgMax', [SH(t)], at, [S.reduce(t, [at.get('axis', 0)], at.get('keepdims', 1))], [np.int64]

    def topk():
        a = R(rng, -r, r - 1)
        t = [max(1, d) for d in s]
        k = R(rng, 1, t[a])
        d = a == -1 and rng.random() < .4
        w = list(t)
        w[a] = k
        n = R(rng, 1, 2)
        return 'TopK', [SH(t), I([k])], {} if d else {'axis': a}, [w, w][:n], [np.float32, np.int64][:n]

    def onehot():
        d = R(rng, 1, 500)
        a = R(rng, -r - 1, r)
        df = rng.random() < .25
        ds = np.asarray(d, np.int64) if rng.random() < .5 else I([d])
        return 'OneHot', [SH(s, np.int64), ds, np.asarray([0, 1], np.float32)], {} if df else {'axis': a}, \
            [S.onehot(s, d, -1 if df else a)], [np.float32]

    def d2s():
        b = R(rng, 1, 5)
        t = [og.big(rng), b * b * R(rng, 1, 6), og.big(rng), og.big(rng)]
        at = {'blocksize': b}
        if rng.random() < .5:
            at['mode'] = pick(rng, ['DCR', 'CRD'])
        return 'DepthToSpace', [SH(t, dt)], at, [[t[0], t[1] // (b * b), t[2] * b, t[3] * b]], [dt]

    def resize():
        q = R(rng, 3, 5)
        t = ext(rng, q, False)
        at = {} if rng.random() < .3 else {'mode': pick(rng, ['nearest', 'linear', 'cubic'])}
        if rng.random() < .3:
            axes = [int(a) - (q if rng.random() < .3 else 0) for a in rng.permutation(q)[:R(rng, 1, q)]]
            want = list(t)
            if rng.random() < .5:
                sz = [og.big(rng) for _ in axes]
                pol = pick(rng, ['', 'stretch', 'not_larger', 'not_smaller'])
                rat = [fractions.Fraction(e, t[a]) for a, e in zip(axes, sz)]
                rat = [(min if pol == 'not_larger' else max)(rat)] * len(axes) if pol.startswith('not') else rat
                for a, e in zip(axes, rat):
                    want[a] = math.floor(e * t[a] + fractions.Fraction(1, 2))
                return 'Resize', [SH(t), None, None, I(sz)], dict(at, axes=axes, **({'keep_aspect_ratio_policy': pol} if pol else {})), [want], [np.float32]
            sc = [pick(rng, [1, 2, 3, 1.5, 2.5, 4, 1.25]) for _ in axes]
            for a, e in zip(axes, sc):
                want[a] = math.floor(t[a] * e)
            return 'Resize', [SH(t), None, np.asarray(sc, np.float32)], dict(at, axes=axes), [want], [np.float32]
        if rng.random() < .5:
            sz = t[:2] + [og.big(rng) for _ in range(q - 2)]
            return 'Resize', [SH(t), None, None, I(sz)], at, [sz], [np.float32]
        sc = np.asarray([1, 1] + [pick(rng, [1, 2, 3, 1.5, .5, 2.5, 4, .25, 1.25]) for _ in range(q - 2)], np.float32)
        t = t[:2] + [max(4, d) for d in t[2:]]
        want = [math.floor(a * float(b)) for a, b in zip(t, sc)]
        if rng.random() < .3 and all(v >= 1 for v in sc):
            return 'Upsample', [SH(t), sc], {'mode': 'nearest'}, [want], [np.float32]
        return 'Resize', [SH(t), None, sc], at, [want], [np.float32]

    def cos():
        t = [R(rng, 0, 5) for _ in range(R(rng, 1, 4))]
        return 'ConstantOfShape', [I(t)], {}, [t], [np.float32]

    def range_():
        a, d = R(rng, -50, 50), pick(rng, [-3, -2, -1, 1, 2, 3, 7])
        b = R(rng, -80, 80)
        dt_ = pick(rng, [np.int64, np.int32, np.float32])
        return 'Range', [np.asarray(v, dt_) for v in (a, b, d)], {}, [[max(0, -(-(b - a) // d))]], [dt_]

    def shape_():
        return 'Shape', [SH(s, dt)], {}, [[r]], [np.int64]

    def compress():
        t = [R(rng, 1, 5) for _ in range(R(rng, 1, 4))]
        n = S.prod(t)
        if rng.random() < .3:
            c = rng.integers(0, 2, R(rng, 1, n)).astype(np.bool_)
            return 'Compress', [SH(t), c], {}, [[int(c.sum())]], [np.float32]
        a = R(rng, -len(t), len(t) - 1)
        c = rng.integers(0, 2, R(rng, 1, t[a])).astype(np.bool_)
        w = list(t)
        w[a] = int(c.sum())
        return 'Compress', [SH(t), c], {'axis': a}, [w], [np.float32]

    def constant():
        import onnx
        v = og.rarr(rng, og.rshape(rng, 0, 4), np.float32)
        return 'Constant', [], {'value': onnx.numpy_helper.from_array(v, 'v')}, [list(v.shape)], [np.float32]

    def cast():
        to = pick(rng, [np.float32, np.float64, np.int32, np.int64, np.bool_, np.float16, np.int8, np.uint8])
        return 'Cast', [SH(s, dt)], {'to': og.DT[np.dtype(to)]}, [s], [to]

    def roi():
        n = og.big(rng)
        t = ext(rng, 4, False)
        h, w = R(rng, 1, 9), R(rng, 1, 9)
        return 'RoiAlign', [SH(t), SH([n, 4]), SH([n], np.int64)], {'output_height': h, 'output_width': w}, [[n, t[1], h, w]], [np.float32]

    def grid():
        t = ext(rng, 4, False)
        o = ext(rng, 2, False)
        return 'GridSample', [SH(t), SH([t[0]] + o + [2])], {}, [t[:2] + o], [np.float32]

    fs = [transpose, concat, split, slice_, slice_, slice_attr_noaxes, gather, gather_el, gathernd, scatter, pad, tile, expand, squeeze,
          unsqueeze, flatten, reshape, reduce_, reduce_, reducel2, argmax, topk, onehot, d2s, resize, cos, range_, shape_, compress,
          constant, cast, roi, grid]
    f = fs[i % len(fs)]
    try:
        return f()
    except ValueError:
        return None


def run(ctx):
    rng = ctx.rng
    with ctx.section('definitions'):
        for i in range(ctx.n(33 * 110, 33 * 1500)):
            if ctx.timeup():
                break
            c = gens(rng, i)
            if c is None:
                continue
            op, ins, at, want, dts = c
            if sum(int(S.prod(w)) for w in want) > 10 ** 6 and op in ('Tile',):
                continue
            og.expect(ctx, 'def', op, ins, at, want, dts)
    for op in REF:
        with ctx.section('reference ' + op):
            for i in range(ctx.n(16, 250)):
                if ctx.timeup():
                    break
                c = og.LAYOUT[op](rng)
                if op == 'Slice' or (op == 'OneHot' and c.inputs[1].ndim):
                    continue
                og.check_shape(ctx, c, 'feed' if i % 2 else 'declared', 'ref')
