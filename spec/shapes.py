"""Executable shape specifications taken from the ONNX operator definitions.

Used concretely (bounded checks, replay) and symbolically (proof contracts); every
function is integer arithmetic only.  `Reject` means the operator definition excludes
the inputs."""
from .sym import ite, Max, Min, And, Or, Not, ceildiv, prod, count


class Reject(Exception):
    pass


# ---------------------------------------------------------------- broadcasting
def bcast_dims(dims):
    """(extent, compatible) of one aligned axis under multidirectional broadcasting"""
    out, ok = dims[0], True
    for d in dims[1:]:
        if isinstance(d, int) and d == 1:
            continue
        if isinstance(out, int) and out == 1:
            out = d
            continue
        ok = And(ok, Or(out == d, out == 1, d == 1))
        out = ite(out == 1, d, out)
    return out, ok


def bcast(shapes):
    """(shape, compatible)"""
    r = max([len(s) for s in shapes] + [0])
    out, ok = [], True
    for k in range(r):
        dims = [s[k - r + len(s)] for s in shapes if k - r + len(s) >= 0]
        o, c = bcast_dims(dims)
        out.append(o)
        ok = And(ok, c)
    return out, ok


# ---------------------------------------------------------------- convolution / pooling
def window(x, k, s, d, pb, pe, ceil=False):
    n = x + pb + pe - ((k - 1) * d + 1)
    return (ceildiv(n, s) if ceil else n // s) + 1


def same(x, s):
    return ceildiv(x, s)


def valid(x, k, s, d):
    return ceildiv(x - ((k - 1) * d + 1) + 1, s)


def conv_axis(x, k, s, d, pb, pe, auto=None, ceil=False):
    if auto in ('SAME_UPPER', 'SAME_LOWER'):
        return same(x, s)
    if auto == 'VALID':
        return valid(x, k, s, d)
    return window(x, k, s, d, pb, pe, ceil)


def convt_axis(x, k, s, d, pb, pe, op, auto=None):
    if auto in ('SAME_UPPER', 'SAME_LOWER'):
        return x * s
    if auto == 'VALID':
        pb, pe = 0, 0
    return s * (x - 1) + op + ((k - 1) * d + 1) - pb - pe


# ---------------------------------------------------------------- layout
def pos(ax, r):
    return ax + r if ax < 0 else ax


def squeeze(s, axes):
    ax = {pos(a, len(s)) for a in axes}
    return [d for i, d in enumerate(s) if i not in ax]


def unsqueeze(s, axes):
    r = len(s) + len(axes)
    ax = {pos(a, r) for a in axes}
    it = iter(s)
    return [1 if i in ax else next(it) for i in range(r)]


def slice_axis(d, start, end, step):
    """extent of one sliced axis (step concrete or symbolic non-zero)"""
    s = ite(start < 0, start + d, start)
    e = ite(end < 0, end + d, end)
    sp, ep = Min(Max(s, 0), d), Min(Max(e, 0), d)
    sn, en = Min(Max(s, 0), d - 1), Min(Max(e, -1), d - 1)
    n = ite(step > 0, ceildiv(ep - sp, step), ceildiv(en - sn, step))
    return Max(n, 0)


def reduce(s, axes, keepdims):
    ax = set(range(len(s))) if axes is None else {pos(a, len(s)) for a in axes}
    return [1 if i in ax else d for i, d in enumerate(s) if keepdims or i not in ax]


def concat(shapes, axis):
    a = pos(axis, len(shapes[0]))
    out = list(shapes[0])
    for s in shapes[1:]:
        out[a] = out[a] + s[a]
    return out


def gather(x, idx, axis):
    a = pos(axis, len(x))
    return list(x[:a]) + list(idx) + list(x[a + 1:])


def gathernd(x, idx, batch, q):
    """q = idx[-1] (concrete)"""
    return list(idx[:-1]) + list(x[batch + q:])


def onehot(idx, depth, axis):
    a = pos(axis, len(idx) + 1)
    return list(idx[:a]) + [depth] + list(idx[a:])


def split(s, axis, parts):
    a = pos(axis, len(s))
    return [[p if i == a else d for i, d in enumerate(s)] for p in parts]


def pad(s, pads):
    r = len(s)
    return [d + pads[i] + pads[i + r] for i, d in enumerate(s)]


def flatten(s, axis):
    a = pos(axis, len(s))
    return [prod(s[:a]), prod(s[a:])]


def reshape(s, target):
    """target entries concrete 0/-1 or extents; returns the shape with -1 resolved"""
    out = [s[i] if isinstance(t, int) and t == 0 else t for i, t in enumerate(target)]
    known = prod([t for t in out if not (isinstance(t, int) and t == -1)])
    return [prod(s) // known if isinstance(t, int) and t == -1 else t for t in out]


def matmul(a, b):
    """(shape, compatible)"""
    va, vb = len(a) == 1, len(b) == 1
    a2 = [1] + list(a) if va else list(a)
    b2 = list(b) + [1] if vb else list(b)
    batch, ok = bcast([a2[:-2], b2[:-2]])
    out = batch + ([] if va else [a2[-2]]) + ([] if vb else [b2[-1]])
    return out, And(ok, a2[-1] == b2[-2])


def gemm(a, b, ta, tb):
    m, k = (a[1], a[0]) if ta else (a[0], a[1])
    k2, n = (b[1], b[0]) if tb else (b[0], b[1])
    return [m, n], k == k2
