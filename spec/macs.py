"""Reference multiply-accumulate counts (integer formulas over shapes and attributes).

The per-element weights restate the cost table the tool documents (one count per
multiply/add/compare, fixed weights for the transcendental functions)."""
from .sym import ite, Min, Max, ilog2, ceildiv, prod, count
import math

MUL = ADD = CMP = 1
DIV, EXP, POW, LOG, SIN, COS, SQRT = 4, 32, 32, 43, 39, 39, 24
TANH = EXP + 2 * ADD + DIV
ATAN = SQRT + 3 * MUL + MUL + DIV

# operator -> cost per output element
PER_ELEMENT = {
    'Add': ADD, 'Sub': ADD, 'Mul': MUL, 'Div': DIV, 'Mod': ADD, 'Pow': POW, 'Min': CMP, 'Max': CMP, 'Neg': CMP, 'Abs': CMP,
    'Ceil': ADD, 'Round': ADD, 'Floor': CMP, 'Exp': EXP, 'Sigmoid': EXP, 'Softmax': EXP + DIV, 'Softplus': EXP + ADD + LOG,
    'Log': LOG, 'ImageScaler': ADD + MUL, 'InstanceNormalization': ADD + MUL + ADD + DIV, 'LpNormalization': EXP + ADD,
    'Sqrt': SQRT, 'Sin': SIN, 'Cos': COS, 'Tanh': 2 * TANH, 'Atan': 2 * ATAN, 'LogSoftmax': EXP + DIV + ADD + LOG, 'Sign': CMP,
    'HardSigmoid': MUL + ADD + 2 * CMP, 'HardSwish': 2 * MUL + ADD + 2 * CMP, 'Relu': CMP, 'Elu': CMP + EXP + ADD + MUL,
    'Silu': EXP + MUL, 'Gelu': EXP + 2 * MUL, 'GeGelu': EXP + 2 * MUL, 'LogitSoftCapping': TANH + MUL + DIV,
    'Rope': COS + SIN + 2 * MUL, 'PRelu': CMP + MUL, 'LeakyRelu': MUL + CMP, 'Clip': 2 * CMP, 'Relu6': 2 * CMP, 'Reciprocal': DIV,
    'Less': CMP, 'LessOrEqual': CMP, 'Greater': CMP, 'GreaterOrEqual': CMP, 'Equal': CMP, 'And': CMP, 'Or': CMP, 'Xor': CMP, 'Not': CMP,
    'NonZero': CMP, 'CumSum': ADD, 'QuantizeLinear': MUL + ADD, 'DequantizeLinear': MUL + ADD, 'Hardmax': ADD, 'CategoryMapper': 0,
    'BatchNormalization': ADD + SQRT + DIV + ADD + MUL,
}
# pure data movement (and operators the tool documents as free)
ZERO = ['Where', 'Transpose', 'Concat', 'Reshape', 'Flatten', 'Squeeze', 'Unsqueeze', 'Slice', 'Gather', 'GatherElements', 'GatherND',
        'ScatterND', 'ScatterElements', 'Split', 'Pad', 'Expand', 'Tile', 'ArgMax', 'TopK', 'OneHot', 'DepthToSpace', 'ConstantOfShape',
        'Range', 'Shape', 'Cast', 'Trilu', 'Compress', 'Dropout', 'GridSample', 'RoiAlign', 'Constant', 'Identity', 'Erf']
REDUCE = {'ReduceMean': ADD, 'ReduceSum': ADD, 'ReduceMax': CMP, 'ReduceMin': CMP, 'ReduceProd': MUL, 'ReduceL2': ADD + SQRT}


def per_element(op, out):
    return count(out) * PER_ELEMENT[op]


def variadic_sum(out, n):
    return count(out) * (n - 1)


def lrn(out, size):
    return count(out) * (DIV + EXP + ADD + size * MUL)


def reduce(op, x):
    return count(x) * REDUCE[op]


def matmul(a, out, bias=False):
    """reduction length per output element (plus one per element with a bias); a is the left operand"""
    return count(out) * a[-1] + (count(out) if bias else 0)


def gemm(k, out, bias):
    return count(out) * k + (count(out) if bias else 0)


def conv(w, out, bias):
    """w = [filters, channels per group, kernel...]"""
    return count(out) * prod(w[1:]) + (count(out) if bias else 0)


def pool(out, kernel):
    return count(out) * prod(kernel)


def gap(x, out):
    return count(x) * ADD + count(out) * DIV


def layernorm(x, axis):
    a = axis + len(x) if axis < 0 else axis
    y = [1 if i == a else d for i, d in enumerate(x)]
    return count(x) * (3 * MUL + 4 * ADD) + count(y) * (ADD + SQRT + DIV)


def resize(out, mode):
    return count(out) * {'nearest': 0, 'linear': 4, 'cubic': 8}[mode]


def lstm(x, w, r, b=()):
    t, n = x[0], x[1]
    d, h = w[0], w[1] // 4
    ht = d * n * t * h
    return (prod(w) + prod(r)) * n * t + (prod(b) if len(b) else 0) * n * t + ht * (3 * EXP + 2 * TANH + ADD + 3 * MUL + 4 * ADD)


def gru(x, w, r, b=()):
    t, n = x[0], x[1]
    d, h = w[0], w[1] // 3
    ht = d * n * t * h
    return (prod(w) + prod(r)) * n * t + (prod(b) if len(b) else 0) * n * t + ht * (3 * ADD + 2 * EXP + TANH + 2 * ADD + 3 * MUL)


def einsum(labels):
    return prod(labels)


# ---------------------------------------------------------------- fused language-model layers
RMS = 2 * MUL + 2 * ADD + SQRT + DIV
ROPE = COS + SIN + 2 * MUL


def sdpa(b, s, heads, head, past=0):
    """QK^T, softmax, scores*V over past+s positions"""
    a = s + past
    return b * heads * s * a * (2 * head + EXP + DIV)


def sdpa_kv(b, s, kv_heads, head, past=0):
    return b * kv_heads * (s + past) * head * 2


def moe(b, s, h, inter, shared, experts, topk, no_gate, no_shared):
    """(macs, io, static parameters touched)"""
    t = b * s
    m = t * h * experts
    m = m + t * topk * (3 * h * inter + inter * (EXP + MUL + MUL))
    if not no_shared:
        m = m + t * (3 * h * shared + shared * (EXP + MUL + MUL))
        if not no_gate:
            m = m + t * h * (EXP + MUL)
    m = m + t * h * ADD
    active = Min(t * topk, experts)
    return m, t * h * 2, h * experts + active * 3 * inter * h + (0 if no_shared else 3 * shared * h)


def gdn(b, s, h, nq, nv, dqk, dv, k):
    t = b * s
    m = 2 * t * h * nq * dqk + t * h * nv * dv + 2 * t * nq * dqk + 2 * t * nq * dqk * k
    m = m + b * nq * s * s * dqk + b * nv * s * s * dv + t * h * (EXP + MUL) + t * nv * dv * h
    return m, t * h * 2, 0


def mla(b, s, d, n, h, qr, orr, g, rd, window, cr, inn, ind, topk):
    t = b * s
    m = t * (d * qr + qr * RMS + qr * n * h + n * h * (2 * MUL + ADD + SQRT + DIV)) + t * (d * h + h * RMS)
    ct = 0
    if cr > 0:
        ct = s // cr
        m = m + t * d * h + b * ct * (cr * h * (EXP + DIV + MUL + ADD) + h * RMS + rd * ROPE)
    if cr == 4:
        m = m + 2 * t * d * ind + b * ct * (cr * ind * (EXP + DIV + MUL + ADD) + ind * RMS + rd * ROPE)
        m = m + t * qr * inn * ind + b * inn * s * rd * ROPE + b * inn * s * ind * ct + t * inn * ct * (CMP + MUL) + t * d * inn
        m = m + ite(ct > 1, t * ct * ilog2(Max(ct, 1)) * CMP, 0)
    m = m + t * (n + 1) * rd * ROPE
    kv = Min(window, s) + ct + Min(topk, ct) if cr > 0 else s
    m = m + b * n * s * kv * (2 * h + EXP + DIV)
    m = m + t * g * (n * h // g) * orr + t * g * orr * d
    st = d * qr + qr + qr * n * h + d * h + h + g * orr * (n * h // g) + d * g * orr
    return m, t * d * 2, st
