"""Sparsity: the reported fractions are the exact fractions of zero elements and of all-zero blocks."""
import numpy as np
from pyvc.contract import Entry, Case
from spec.sym import And, Or, Not, ite, prod

KINDS = {'float32': 0, 'float64': 0, 'float16': 0, 'int32': 0, 'int8': 0, 'uint8': 128}


def exact(v, x, value, size, ratio):
    """ratio is the fraction of blocks of that size made of the value"""
    n, m = v.blocks(x, value, size)
    if v.native:
        return abs(ratio - n / m) < 1e-12
    return ratio * m == n


def extents(v, rank, val):
    """extents; the outer two are not divisible by 2**val (val None: anything)"""
    sh = [v.small('n%d' % k, 1, 23) if k < 2 else v.small('n%d' % k, 1, 3) for k in range(rank)]
    if val is not None:
        for s in sh[:2]:
            v.require(s % 2 ** val != 0)
    return sh


def element_ratio(rank, dt):
    def fn(v):
        import onnx_tool.tensor as T
        sh = extents(v, rank, None)
        x = v.zeros('w', sh, dt)

        def run():
            r = T.narray_calc_sparsity(x)
            return exact(v, x, KINDS.get(dt, 0), [1] * rank, r) if rank in (2, 4) and dt in KINDS else r == 0
        return Case(run, True, False, {'shape': sh, 'dtype': dt})
    return fn


def report_ok(v, x, dt, rank, out):
    (a, b), r = out
    sh = x.source if not v.native else list(x.shape)
    return {'positive': And(a >= 1, b >= 1), 'divides the rows': sh[0] % a == 0, 'divides the columns': sh[1] % b == 0,
            'exact block fraction': exact(v, x, KINDS.get(dt, 0), [a, b] + [1] * (rank - 2), r)}


OK = {'positive': True, 'divides the rows': True, 'divides the columns': True, 'exact block fraction': True}


def pattern(rank, dt, val):
    """the search reports a block size that divides the extents and its exact fraction"""
    def fn(v):
        import onnx_tool.tensor as T
        sh = extents(v, rank, val)
        x = v.zeros('w', sh, dt)
        thr = v.real('threshold')
        v.require(thr >= 0)
        n, m = v.blocks(x, KINDS[dt], [1] * rank)
        ratio = n / m

        def run():
            return report_ok(v, x, dt, rank, T.search_sparse_blocksize(x, ratio, thr))
        return Case(run, OK, False, {'shape': sh, 'dtype': dt, 'threshold': thr})
    return fn


def tensor_record(rank, dt, val, static=True):
    """what a constant records about itself"""
    def fn(v):
        import onnx_tool.tensor as T
        sh = [v.small('n%d' % k, 1, 150 if rank == 2 else 40) if k < 2 else v.small('n%d' % k, 1, 4) for k in range(rank)]
        if rank > 1:
            for s in sh[:2]:
                v.require(s % 2 ** val != 0)
        x = v.zeros('w', sh, dt)

        def run():
            t = T.Tensor('w')
            t.numpy, t.shape, t.dtype = x, list(sh), np.dtype(dt).type
            t.type = T.STATIC_TENSOR if static else T.DYNAMIC_TENSOR
            t.sparsity_search()
            s = t.sparsity
            if not static:
                return s is None
            if rank in (2, 4) and dt in KINDS:
                a, b = s['blocksize']
                n, m = v.blocks(x, KINDS[dt], [1] * rank)
                frac = n / m
                big = prod(sh) > 4096
                o = report_ok(v, x, dt, rank, (s['blocksize'], s['blockratio']))
                o['exact block fraction'] = Or(o['exact block fraction'], And(a == 1, b == 1, s['blockratio'] == 0))
                same = exact(v, x, KINDS[dt], [1] * rank, s['ratio'])
                o['exact fraction'] = Or(same, And(Not(big), s['ratio'] == 0))
                o['dense is dense'] = Or(Not(s['ratio'] <= 0.4), And(a == 1, b == 1, s['blockratio'] == 0))
                return o
            a, b = s['blocksize']
            return And(s['ratio'] == 0, s['blockratio'] == 0, a == 1, b == 1)
        exp = dict(OK, **{'exact fraction': True, 'dense is dense': True}) if static and rank in (2, 4) and dt in KINDS else True
        return Case(run, exp, False, {'shape': sh, 'dtype': dt})
    return fn


def entries(tier):
    val = 3 if tier == 'quick' else 5
    for dt in list(KINDS) + ['int64', 'uint16', 'bool']:
        for rank in (1, 2, 3, 4):
            yield Entry('fraction/%s/rank %d' % (dt, rank), ['C17'], element_ratio(rank, dt))
    for dt in KINDS:
        for rank in (2, 4):
            yield Entry('pattern/%s/rank %d' % (dt, rank), ['C17'], pattern(rank, dt, val), 'extents not divisible by %d' % 2 ** val)
            yield Entry('record/%s/rank %d' % (dt, rank), ['C17'], tensor_record(rank, dt, val), 'extents not divisible by %d' % 2 ** val)
    for dt in ('int64', 'bool'):
        yield Entry('record/%s/rank 2' % dt, ['C17'], tensor_record(2, dt, 1))
    for rank in (1, 3):
        yield Entry('record/float32/rank %d' % rank, ['C17'], tensor_record(rank, 'float32', 9))
    yield Entry('record/dynamic', ['C17'], tensor_record(2, 'float32', 9, False))
