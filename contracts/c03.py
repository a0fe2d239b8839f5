"""Layout, indexing, reduction operators: axes, permutations and operand forms enumerated per rank, extents and operand values symbolic."""
import itertools
import numpy as np
from pyvc.contract import Entry, Case, Ten, NONE, op_case, lst
from spec import shapes as S
from spec import macs as M
from spec.sym import And, Or, Not, Max, Min, ite, ceildiv

F, F64, I64, I32, B, U8 = np.float32, np.float64, np.int64, np.int32, np.bool_, np.uint8
PASS = 0


def V(xs, dt=I64):
    return Ten([len(xs)], dt, list(xs))


def axes_sets(r, k):
    """all ordered choices of k axes for small k, each written with positive and with negative numbers"""
    for a in itertools.permutations(range(r), k):
        yield list(a)
        yield [x - r for x in a]
        if k > 1:
            yield [x - r if i % 2 else x for i, x in enumerate(a)]


def subsets(r):
    for k in range(1, r + 1):
        for a in itertools.combinations(range(r), k):
            yield list(a)


def signs(a, r):
    yield a
    yield [x - r for x in a]
    if len(a) > 1:
        yield [x - r if i % 2 == 0 else x for i, x in enumerate(a[::-1])]


def left_out(build, *which):
    """the same node with the listed operands written with an empty name"""
    def fn(v):
        t = build(v)
        ins = list(t[0])
        for k in which:
            ins[k:k + 1] = [NONE]
        return (ins,) + tuple(t[1:])
    return fn


def family(tier, want=('shape',)):
    full = tier == 'thorough'
    R = 6 if full else 5

    def E(name, fn, bound=''):
        return name, fn, bound

    def rk(r):
        return 'rank %d' % r

    def case(op, build):
        """build(v) -> (ins, attrs, shapes, dtypes[, macs[, reject]])"""
        def fn(v):
            t = build(v)
            ins, at, sh, dt = t[:4]
            mac = t[4] if len(t) > 4 else 0
            rej = t[5] if len(t) > 5 else False
            return op_case(v, op, ins, at, len(sh), sh, dt, mac, rej, want=want)
        return fn

    # transpose
    def tr_default(v):
        s = v.seq('s', 0)
        return [Ten(s)], {}, [s[::-1]], [F]
    yield E('Transpose/default', case('Transpose', tr_default))
    for r in range(1, R + 1):
        perms = list(itertools.permutations(range(r)))
        for p in perms if r <= 4 or full else perms[::7]:
            def f(v, r=r, p=p):
                s = v.shape('x', r, 0)
                return [Ten(s, U8)], {'perm': list(p)}, [[s[a] for a in p]], [U8]
            yield E('Transpose/%s' % (p,), case('Transpose', f), rk(r))
    # concat
    for r in range(1, R + 1):
        for n in (1, 2, 3, 5):
            for a in range(-r, r):
                def f(v, r=r, n=n, a=a):
                    s = v.shape('x', r, 0)
                    ss = [[v.int('c%d' % k, 0) if i == a % r else d for i, d in enumerate(s)] for k in range(n)]
                    return [Ten(t) for t in ss], {'axis': a}, [S.concat(ss, a)], [F]
                yield E('Concat/rank%d/%d/axis%d' % (r, n, a), case('Concat', f), rk(r))
    # split
    for r in range(1, R + 1):
        for a in range(-r, r):
            for n in (1, 2, 3, 5) if full else (1, 3):
                for form in ('attr', 'input', 'equal', 'uneven'):
                    if form == 'uneven' and n == 1:
                        continue

                    def f(v, r=r, a=a, n=n, form=form):
                        s = v.shape('x', r, 0)
                        at = {'axis': a}
                        if form in ('attr', 'input'):
                            ps = [v.int('p%d' % k, 0) for k in range(n)]
                        elif form == 'equal':
                            ps = [v.int('p', 0)] * n
                        else:
                            c = v.int('c', 2)
                            last = v.int('l', 1)
                            v.require(last < c)
                            ps = [c] * (n - 1) + [last]
                        t = 0
                        for q in ps:
                            t = t + q
                        if form == 'uneven':
                            v.require(ceildiv(t, n) == ps[0])
                        s[a % r] = t
                        ins = [Ten(s)]
                        if form == 'attr':
                            at['split'] = ps
                        if form == 'input':
                            ins.append(V(ps))
                        return ins, at, S.split(s, a, ps), [F] * n
                    yield E('Split/rank%d/axis%d/%d/%s' % (r, a, n, form), case('Split', f), rk(r))
                    if form == 'equal':
                        yield E('Split/rank%d/axis%d/%d/left out' % (r, a, n), case('Split', left_out(f, 1)), rk(r))
    # slice
    for r in range(1, R + 1):
        for k in (1, 2):
            if k > r:
                continue
            sets = list(axes_sets(r, k))
            if k == 2 and not full:
                sets = sets if r == 2 else sets[::3] if r == 3 else []
            for ax in sets:
                for form in ('attr', 'noaxes', 'input', 'steps+', 'steps-', 'attr-noaxes'):
                    na = [x % r for x in ax]
                    if form in ('noaxes', 'attr-noaxes') and na != list(range(k)):
                        continue
                    if k == 2 and form[:5] == 'steps' and r > 2:
                        continue

                    def f(v, r=r, k=k, ax=ax, na=na, form=form):
                        s = [v.int('x%d' % i, 0 if i in na else 1) for i in range(r)]
                        st = [v.int('b%d' % i) for i in range(k)]
                        en = [v.int('e%d' % i) for i in range(k)]
                        sp = [1] * k
                        if form == 'steps+':
                            sp = [v.int('t%d' % i, 1) for i in range(k)]
                        if form == 'steps-':
                            sp = [v.int('t%d' % i, -9 if v.native else None) for i in range(k)]
                            for i in range(k):
                                v.require(sp[i] < 0)
                                v.require(s[na[i]] > 0)
                        out = list(s)
                        for i in range(k):
                            out[na[i]] = S.slice_axis(s[na[i]], st[i], en[i], sp[i])
                        if form == 'attr':
                            return [Ten(s)], {'starts': st, 'ends': en, 'axes': ax}, [out], [F]
                        if form == 'attr-noaxes':
                            return [Ten(s)], {'starts': st, 'ends': en}, [out], [F]
                        if form == 'noaxes':
                            return [Ten(s), V(st), V(en)], {}, [out], [F]
                        if form == 'input':
                            return [Ten(s), V(st, I32), V(en, I32), V(ax)], {}, [out], [F]
                        return [Ten(s), V(st), V(en), V(ax), V(sp)], {}, [out], [F]
                    yield E('Slice/rank%d/%s/%s' % (r, ax, form), case('Slice', f), rk(r))
                    if form == 'noaxes':
                        yield E('Slice/rank%d/%s/axes left out' % (r, ax), case('Slice', left_out(f, 3)), rk(r))
                        yield E('Slice/rank%d/%s/axes, steps left out' % (r, ax), case('Slice', left_out(f, 3, 4)), rk(r))
                    if form == 'input':
                        yield E('Slice/rank%d/%s/steps left out' % (r, ax), case('Slice', left_out(f, 4)), rk(r))
                    if form[:5] == 'steps' and na == list(range(k)):
                        yield E('Slice/rank%d/%s/%s, axes left out' % (r, ax, form), case('Slice', left_out(f, 3)), rk(r))
    # gather family
    for r in range(1, R + 1):
        for q in range(0, 4):
            for a in [None] + list(range(-r, r)):
                def f(v, r=r, q=q, a=a):
                    s, ix = v.shape('x', r, 0), v.shape('i', q, 0)
                    return [Ten(s), Ten(ix, I64)], {} if a is None else {'axis': a}, [S.gather(s, ix, a or 0)], [F]
                yield E('Gather/rank%d/index rank%d/axis%s' % (r, q, a), case('Gather', f), rk(r))

    def gel(v):
        s, ix = v.seq('s', 0), v.seq('ix', 0)
        return [Ten(s, F64), Ten(ix, I64)], {'axis': 0}, [ix], [F64]
    yield E('GatherElements', case('GatherElements', gel))
    for r in range(1, R + 1):
        for b in range(r):
            for q in range(1, r - b + 1):
                for m in (0, 1, 2):
                    def f(v, r=r, b=b, q=q, m=m):
                        s = v.shape('x', r, 0)
                        ix = s[:b] + v.shape('i', m, 0) + [q]
                        return [Ten(s), Ten(ix, I64)], {'batch_dims': b} if b else {}, [S.gathernd(s, ix, b, q)], [F]
                    yield E('GatherND/rank%d/batch%d/depth%d/%d' % (r, b, q, m), case('GatherND', f), rk(r))

    def scat(op):
        def f(v):
            s, ix = v.seq('s', 0), v.seq('ix', 0)
            return [Ten(s), Ten(ix, I64), Ten(ix)], {}, [s], [F]
        return f
    for op in ('ScatterND', 'ScatterElements'):
        yield E(op, case(op, scat(op)))
    # pad
    for r in range(1, R + 1):
        for form in ('attr', 'input', 'value'):
            def f(v, r=r, form=form):
                s = v.shape('x', r, 0)
                p = v.shape('p', 2 * r, -3)
                for i in range(r):
                    v.require(s[i] + p[i] + p[i + r] >= 0)
                out = [S.pad(s, p)]
                if form == 'attr':
                    return [Ten(s)], {'pads': p, 'mode': 'edge'}, out, [F]
                return [Ten(s), V(p)] + ([Ten([], F, 1.0)] if form == 'value' else []), {}, out, [F]
            yield E('Pad/rank%d/%s' % (r, form), case('Pad', f), rk(r))
            if form == 'input':
                yield E('Pad/rank%d/value left out' % r, case('Pad', left_out(f, 2)), rk(r))
                yield E('Pad/rank%d/value, axes left out' % r, case('Pad', left_out(f, 2, 3)), rk(r))
        for k in range(1, min(r, 3) + 1):
            for ax in axes_sets(r, k):
                if k > 1 and r > 3:
                    continue

                def f(v, r=r, k=k, ax=ax):
                    s = v.shape('x', r, 0)
                    p = v.shape('p', 2 * k, -3)
                    out = list(s)
                    for i, a in enumerate(ax):
                        out[a] = out[a] + p[i] + p[i + k]
                        v.require(out[a] >= 0)
                    return [Ten(s), V(p), NONE if len(ax) % 2 else Ten([], F, 1.0), V(ax)], {}, [out], [F]
                yield E('Pad/rank%d/axes %s' % (r, ax), case('Pad', f), rk(r))
    # tile, expand
    for r in range(1, 4 + full):
        def f(v, r=r):
            s, t = v.smalls('x', r), v.smalls('t', r)
            return [Ten(s), V(t)], {}, [[a * b for a, b in zip(s, t)]], [F]
        yield E('Tile/rank%d' % r, case('Tile', f), rk(r))
    for r in range(0, R):
        for q in range(1, R):
            def f(v, r=r, q=q):
                s, e = v.shape('x', r), v.shape('e', q)
                o, ok = S.bcast([s, e])
                v.require(ok)
                return [Ten(s), V(e)], {}, [o], [F]
            yield E('Expand/rank%d to %d' % (r, q), case('Expand', f), 'ranks %d, %d' % (r, q))
    # squeeze / unsqueeze
    for r in range(1, R + 1):
        for a0 in subsets(r):
            for ax in signs(a0, r):
                for form in ('attr', 'input'):
                    def f(v, r=r, a0=a0, ax=ax, form=form):
                        s = [1 if i in a0 else d for i, d in enumerate(v.shape('x', r, 0))]
                        ins, at = ([Ten(s)], {'axes': ax}) if form == 'attr' else ([Ten(s), V(ax)], {})
                        return ins, at, [S.squeeze(s, ax)], [F]
                    yield E('Squeeze/rank%d/%s/%s' % (r, ax, form), case('Squeeze', f), rk(r))
        for m in range(2 ** r):
            def f(v, r=r, m=m):
                s = v.shape('x', r, 2)
                s = [1 if m >> i & 1 else d for i, d in enumerate(s)]
                return [Ten(s)], {}, [[d for i, d in enumerate(s) if not m >> i & 1]], [F]
            yield E('Squeeze/rank%d/default/%d' % (r, m), case('Squeeze', f), rk(r))
            if r < 4:
                yield E('Squeeze/rank%d/left out/%d' % (r, m), case('Squeeze', left_out(f, 1)), rk(r))
    for q in range(1, R + 2):
        for a0 in subsets(q):
            if q > 4 and len(a0) > 3 and not full:
                continue
            for ax in signs(a0, q):
                for form in ('attr', 'input'):
                    def f(v, q=q, ax=ax, form=form):
                        s = v.shape('x', q - len(ax), 0)
                        ins, at = ([Ten(s)], {'axes': ax}) if form == 'attr' else ([Ten(s), V(ax)], {})
                        return ins, at, [S.unsqueeze(s, ax)], [F]
                    yield E('Unsqueeze/to rank%d/%s/%s' % (q, ax, form), case('Unsqueeze', f), rk(q))
    # flatten, reshape
    for r in range(1, R + 1):
        for a in [None] + list(range(-r, r + 1)):
            def f(v, r=r, a=a):
                s = v.smalls('x', r)
                return [Ten(s)], {} if a is None else {'axis': a}, [S.flatten(s, 1 if a is None else a)], [F]
            yield E('Flatten/rank%d/axis%s' % (r, a), case('Flatten', f), rk(r))
    for r in range(1, R + 1):
        for m in range(2 ** (r - 1)):
            cuts = [i + 1 for i in range(r - 1) if m >> i & 1]
            ng = len(cuts) + 1
            for hide in [None] + list(range(ng)):
                for zero in (False, True):
                    if zero and (m + (hide or 0)) % 2 and not full:
                        continue

                    def f(v, r=r, cuts=cuts, hide=hide, zero=zero):
                        s = v.shape('x', r)
                        grp = [S.prod(s[a:b]) for a, b in zip([0] + cuts, cuts + [r])]
                        tgt = list(grp)
                        if zero:
                            for k in range(len(tgt)):
                                if ([0] + cuts)[k] == k and (cuts + [r])[k] == k + 1:
                                    tgt[k] = 0
                        if hide is not None:
                            tgt[hide] = -1
                        return [Ten(s), V(tgt)], {}, [grp], [F]
                    yield E('Reshape/rank%d/%s/-1 at %s%s' % (r, cuts, hide, '/zeros' if zero else ''), case('Reshape', f), rk(r))
    # reshape that splits one axis and that adds unit axes
    for r in range(1, 4):
        for k in range(r):
            for hide in (None, 0, 1):
                def f(v, r=r, k=k, hide=hide):
                    a, b = v.ext('a'), v.ext('b')
                    s = v.shape('x', r)
                    s[k] = a * b
                    out = s[:k] + [a, b] + s[k + 1:]
                    tgt = list(out)
                    if hide is not None:
                        tgt[k + hide] = -1
                    return [Ten(s), V(tgt)], {}, [out], [F]
                yield E('Reshape/split/rank%d/%d/-1 at %s' % (r, k, hide), case('Reshape', f), rk(r))

    def resh_bad(v):
        s, t = v.shape('x', 2), v.shape('t', 2)
        return [Ten(s), V(t)], {}, [t], [F], 0, Not(s[0] * s[1] == t[0] * t[1])
    yield E('Reshape/same volume', case('Reshape', resh_bad))
    # reductions
    ops = ['ReduceMean', 'ReduceSum', 'ReduceMax', 'ReduceMin', 'ReduceProd']
    for r in range(1, R + 1):
        for a0 in [None] + list(subsets(r)):
            for ax in ([None] if a0 is None else list(signs(a0, r))):
                for kd in (None, 0, 1):
                    for form in ('attr', 'input'):
                        for op in (ops if full or r <= 2 else [ops[(len(ax or []) + r) % 5]]) + ['ReduceL2']:
                            if (op == 'ReduceL2' and r > 4) or (ax is None and form == 'input'):
                                continue

                            def f(v, r=r, ax=ax, kd=kd, form=form, op=op):
                                s = v.smalls('x', r) if op == 'ReduceL2' else v.shape('x', r)
                                at = {} if kd is None else {'keepdims': kd}
                                ins = [Ten(s)]
                                if ax is not None:
                                    if form == 'attr':
                                        at['axes'] = ax
                                    else:
                                        ins.append(V(ax))
                                out = S.reduce(s, ax, 1 if kd is None else kd)
                                return ins, at, [out], [F], S.count(s) * (M.ADD + M.SQRT if op == 'ReduceL2' else 1)
                            yield E('%s/rank%d/%s/keep%s/%s' % (op, r, ax, kd, form), case(op, f), rk(r))
                            if ax is None:
                                for what in ('left out', 'empty', 'empty attribute'):
                                    for noop in (None, 0, 1):
                                        def h(v, f=f, noop=noop, what=what):
                                            ins, at, out, dt, mac = f(v)
                                            if what == 'empty attribute':
                                                at = dict(at, axes=[])
                                            else:
                                                ins = ins + [NONE if what == 'left out' else V([])]
                                            return ins, at if noop is None else dict(at, noop_with_empty_axes=noop), [ins[0].shape] if noop else out, dt, mac
                                        yield E('%s/rank%d/axes %s/keep%s/noop %s' % (op, r, what, kd, noop), case(op, h), rk(r))
    for r in range(1, R):
        for a in [None] + list(range(-r, r)):
            for kd in (None, 0, 1):
                for last in (None, 1):
                    def f(v, r=r, a=a, kd=kd, last=last):
                        s = v.smalls('x', r)
                        at = {}
                        if a is not None:
                            at['axis'] = a
                        if kd is not None:
                            at['keepdims'] = kd
                        if last is not None:
                            at['select_last_index'] = last
                        return [Ten(s)], at, [S.reduce(s, [a or 0], 1 if kd is None else kd)], [I64]
                    yield E('ArgMax/rank%d/axis%s/keep%s/last%s' % (r, a, kd, last), case('ArgMax', f), rk(r))
    for r in range(1, R + 1):
        for a in [None] + list(range(-r, r)):
            for n in (1, 2):
                def f(v, r=r, a=a, n=n):
                    s = v.shape('x', r)
                    p = r - 1 if a is None else a % r
                    k = v.int('k', 1)
                    v.require(k <= s[p])
                    w = [k if i == p else d for i, d in enumerate(s)]
                    return [Ten(s), V([k])], {} if a is None else {'axis': a}, [w, w][:n], [F, I64][:n]
                yield E('TopK/rank%d/axis%s/%d' % (r, a, n), case('TopK', f), rk(r))
    for r in range(0, R):
        for a in [None] + list(range(-r - 1, r + 1)):
            for sc in (True, False):
                def f(v, r=r, a=a, sc=sc):
                    s, d = v.shape('x', r, 0), v.ext('d')
                    return [Ten(s, I64), Ten([], I64, d) if sc else V([d]), Ten([2], F, [0., 1.])], {} if a is None else {'axis': a}, \
                        [S.onehot(s, d, -1 if a is None else a)], [F]
                yield E('OneHot/rank%d/axis%s/%s' % (r, a, 'scalar' if sc else 'vector'), case('OneHot', f), rk(r))

    def d2s(mode):
        def f(v):
            b = v.ext('b')
            n, c, h, w = v.ext('n'), v.ext('c'), v.ext('h'), v.ext('w')
            return [Ten([n, c * (b * b), h, w])], dict({'blocksize': b}, **({'mode': mode} if mode else {})), [[n, c, h * b, w * b]], [F]
        return f
    for mode in (None, 'DCR', 'CRD'):
        yield E('DepthToSpace/%s' % mode, case('DepthToSpace', d2s(mode)))
    # resize
    for r in range(3, 6):
        for mode in (None, 'nearest', 'linear', 'cubic'):
            per = 0 if mode in (None, 'nearest') else 4 if mode == 'linear' else 8

            def f(v, r=r, mode=mode, per=per):
                s = v.shape('x', r)
                z = s[:2] + v.shape('z', r - 2)
                return [Ten(s), NONE, NONE, V(z)], {'mode': mode} if mode else {}, [z], [F], S.count(z) * per
            yield E('Resize/rank%d/sizes/%s' % (r, mode), case('Resize', f), rk(r))
            for sc in ([2., 2., 2.], [.5, 3., 1.], [1.5, 2.5, .25]):
                def f(v, r=r, mode=mode, sc=sc, per=per):
                    s = v.shape('x', r)
                    q = [1., 1.] + sc[:r - 2]
                    out = [(d * int(e * 4)) // 4 for d, e in zip(s, q)]
                    for o in out:
                        v.require(o >= 1)
                    return [Ten(s), NONE, Ten([r], F, q)], {'mode': mode} if mode else {}, [out], [F], S.count(out) * per
                yield E('Resize/rank%d/scales %s/%s' % (r, sc, mode), case('Resize', f), '%s, listed scales' % rk(r))
                yield E('Resize/rank%d/scales %s/%s/sizes left out' % (r, sc, mode), case('Resize', left_out(f, 3)), '%s, listed scales' % rk(r))
        # the axes attribute: the listed axes, in the listed order, are resized and the others kept
        for axes in sorted({(r - 1,), (-1,), (r - 2, r - 1), (r - 1, r - 2), (-2, -1), (1, 0), (-1, 0, 1)}):
            for mode in (None, 'linear'):
                per = 4 if mode else 0

                def f(v, r=r, mode=mode, per=per, axes=axes):
                    s = v.shape('x', r)
                    z, out = v.shape('z', len(axes)), list(s)
                    for a, e in zip(axes, z):
                        out[a] = e
                    return [Ten(s), NONE, NONE, V(z)], dict({'mode': mode} if mode else {}, axes=list(axes)), [out], [F], S.count(out) * per
                yield E('Resize/rank%d/axes %s/sizes/%s' % (r, list(axes), mode), case('Resize', f), rk(r))

                def f(v, r=r, mode=mode, per=per, axes=axes):
                    s = v.shape('x', r)
                    q, out = [2., .5, 1.5][:len(axes)], list(s)
                    for a, e in zip(axes, q):
                        out[a] = (s[a] * int(e * 4)) // 4
                        v.require(out[a] >= 1)
                    return [Ten(s), NONE, Ten([len(axes)], F, q)], dict({'mode': mode} if mode else {}, axes=list(axes)), [out], [F], S.count(out) * per
                yield E('Resize/rank%d/axes %s/scales/%s' % (r, list(axes), mode), case('Resize', f), '%s, listed scales' % rk(r))
        # keep_aspect_ratio_policy: one ratio for all resized axes, the smallest or the largest asked for, halves rounded up
        for pol in ('stretch', 'not_larger', 'not_smaller'):
            for axes in sorted({(r - 2, r - 1), (r - 1, r - 2), (-1, 0, 1), (-1,)}):
                def f(v, r=r, axes=axes, pol=pol):
                    s = v.shape('x', r)
                    z, out = v.shape('z', len(axes)), list(s)
                    num, den = z[0], s[axes[0]]
                    for a, e in list(zip(axes, z))[1:]:
                        better = e * den < num * s[a] if pol == 'not_larger' else e * den > num * s[a]
                        num, den = ite(better, e, num), ite(better, s[a], den)
                    for a, e in zip(axes, z):
                        out[a] = e if pol == 'stretch' else (2 * num * s[a] + den) // (2 * den)
                        v.require(out[a] >= 1)
                    return [Ten(s), NONE, NONE, V(z)], {'axes': list(axes), 'keep_aspect_ratio_policy': pol}, [out], [F], 0
                yield E('Resize/rank%d/axes %s/%s' % (r, list(axes), pol), case('Resize', f), rk(r))
        for sc in ([2., 2., 2.], [3., 1., 4.]):
            def f(v, r=r, sc=sc):
                s = v.shape('x', r)
                q = [1., 1.] + sc[:r - 2]
                out = [d * int(e) for d, e in zip(s, q)]
                return [Ten(s), Ten([r], F, q)], {'mode': 'nearest'}, [out], [F], 0
            yield E('Upsample/rank%d/%s' % (r, sc), case('Upsample', f), '%s, listed scales' % rk(r))
    # constructors
    for r in range(1, R + 1):
        def f(v, r=r):
            s = v.shape('x', r, 0)
            return [V(s)], {}, [s], [F]
        yield E('ConstantOfShape/rank%d' % r, case('ConstantOfShape', f), rk(r))
    for sgn in (1, -1):
        for dt in (I64, I32):
            def f(v, sgn=sgn, dt=dt):
                a, b = v.int('a', -50 if v.native else None), v.int('b', -50 if v.native else None)
                d = v.int('d', 1) * sgn
                n = Max(0, ceildiv(b - a, d) if sgn > 0 else ceildiv(a - b, -d))
                return [Ten([], dt, a), Ten([], dt, b), Ten([], dt, d)], {}, [[n]], [dt], None
            if want == ('shape',):
                yield E('Range/%s/%s' % (sgn, np.dtype(dt).name), case('Range', f))
    for r in range(0, R + 2):
        def f(v, r=r):
            s = v.shape('x', r, 0)
            return [Ten(s)], {}, [[r]], [I64]
        yield E('Shape/rank%d' % r, case('Shape', f), rk(r))
    import onnx
    for to in (F, F64, np.float16, I32, I64, np.int8, np.int16, U8, np.uint16, np.uint32, np.uint64, B):
        def f(v, to=to):
            s = v.seq('s', 0)
            return [Ten(s, I32)], {'to': int(onnx.helper.np_dtype_to_tensor_dtype(np.dtype(to)))}, [s], [to]
        yield E('Cast/%s' % np.dtype(to).name, case('Cast', f))

    def roi(v):
        n, s, h, w = v.ext('n'), v.shape('x', 4), v.ext('h'), v.ext('w')
        return [Ten(s), Ten([n, 4]), Ten([n], I64)], {'output_height': h, 'output_width': w}, [[n, s[1], h, w]], [F]
    yield E('RoiAlign', case('RoiAlign', roi))

    for nd in (2, 3):
        def f(v, nd=nd):
            s, o = v.shape('x', 2 + nd), v.shape('o', nd)
            return [Ten(s), Ten([s[0]] + o + [nd])], {}, [s[:2] + o], [F]
        yield E('GridSample/%dd' % nd, case('GridSample', f))


def axes_helper(r, k):
    def fn(v):
        from onnx_tool.node import _axes_neg2pos
        ax = [v.int('a%d' % i) for i in range(k)]
        for a in ax:
            v.require(And(a >= -r, a < r))
        return Case(lambda: _axes_neg2pos(r, ax), [ite(a < 0, a + r, a) for a in ax])
    return fn


def axes_any(v):
    from onnx_tool.node import _axes_neg2pos
    ax, r = v.seq('ax', None), v.int('r', 0)
    want = [ite(a < 0, a + r, a) for a in ax] if v.native else __import__('pyvc.seq', fromlist=['x']).map_seq(lambda a: ite(a < 0, a + r, a), ax)
    return Case(lambda: lst(_axes_neg2pos(r, ax)), want)


def entries(tier):
    yield Entry('_axes_neg2pos', ['C03'], axes_any)
    for name, fn, bound in family(tier):
        yield Entry(name, ['C03'], fn, bound)
