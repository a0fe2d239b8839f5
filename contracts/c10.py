"""Memory plans: every block of Graph.compress_memory is inside the total, large enough, aligned and apart from the blocks of
tensors alive at the same time, for arbitrary tensor sizes."""
import itertools
import numpy as np
import onnx
from onnx import helper as oh
from pyvc.contract import Entry, Case, count
from spec.sym import And, Or, Max

KEYS = ('tensors', 'inside the total', 'large enough', 'aligned', 'apart while alive', 'total')
BYTES = {'float32': 4, 'float16': 2, 'float64': 8, 'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'int64': 8, 'uint32': 4, 'uint64': 8, 'bool': 1}


def memsize(dt, rank):
    def fn(v):
        from onnx_tool.tensor import Tensor
        if rank == 0:
            sh, n = [], 1
        else:
            sh = v.seq('s', lo=0)
            v.require(len(sh) >= 1 if v.native else sh.n >= 1)
            n = count(v, sh)

        def run():
            t = Tensor('t')
            t.update_shape(sh)
            t.update_dtype(np.dtype(dt).type)
            return t.get_memsize()
        return Case(run, n * BYTES[dt], False, {'shape': sh, 'dtype': dt})
    return fn


def topo(last, lastx, wide):
    """node k makes t<k> (and u<k> when wide); a tensor is used last by the node given, or is a graph output (None)"""
    n = len(last)
    nodes, used = [], set()
    for k in range(n):
        ins = [('x', lastx)] + [('t%d' % i, last[i]) for i in range(k)]
        if wide:
            ins += [('u%d' % i, i + 1) for i in range(k)]
        mine = [t for t, l in ins if l == k]
        if not mine:
            mine = ['x'] if k == 0 else ['t%d' % (k - 1)]
        if wide and k == 1:
            mine = mine + mine[:1]
        nodes.append(oh.make_node('Custom', mine, ['t%d' % k] + (['u%d' % k] if wide else []), 'n%d' % k))
        used |= set(mine)
    outs = ['t%d' % k for k in range(n) if last[k] is None]
    return oh.make_graph(nodes, 'g', [oh.make_tensor_value_info('x', onnx.TensorProto.INT8, [1])],
                         [oh.make_tensor_value_info(o, onnx.TensorProto.INT8, None) for o in outs])


def lives(gp):
    """(first, last) node position at which each activation must be stored"""
    outs = {o.name for o in gp.output}
    made = {'x': 0}
    for k, nd in enumerate(gp.node):
        for o in nd.output:
            made[o] = k
    res = {}
    for t, b in made.items():
        use = [k for k, nd in enumerate(gp.node) if t in nd.input]
        res[t] = (b, len(gp.node) - 1 if t in outs or (not use and t != 'x') else max(use + [b]))
    return res


def plan(last, lastx, wide, pad, earlier=()):
    def fn(v):
        from onnx_tool.graph import Graph
        from onnx_tool.utils import ModelConfig
        gp = topo(last, lastx, wide)
        live = lives(gp)
        p = pad if pad else v.int('alignment', 1, 50)
        sizes = {t: v.int('size_' + t, 0, 9000) if v.native else v.int('size_' + t, 0) for t in live}

        def run():
            g = Graph(gp, ModelConfig({}))
            for k, other in enumerate(earlier):         # plans of the same graph for other sizes
                for j, t in enumerate(sizes):
                    g.tensormap[t].update_shape([other * (j + 1) % 5000])
                    g.tensormap[t].update_dtype(np.int8)
                g.compress_memory(64 + k)
            for t, s in sizes.items():
                g.tensormap[t].update_shape([s])
                g.tensormap[t].update_dtype(np.int8)
            m, total = g.compress_memory(p)
            ok = dict.fromkeys(KEYS, True)

            def must(k, c):
                ok[k] = And(ok[k], c)
            must('tensors', set(m) <= set(live))
            ends = [0]
            for t, s in sizes.items():
                if t not in m:
                    must('tensors', s == 0)
                    continue
                o, b = m[t]
                must('tensors', s > 0)
                must('inside the total', And(o >= 0, o + b <= total))
                must('large enough', b >= s)
                must('aligned', o % p == 0)
                ends.append(o + b)
                for u, (f, l) in live.items():
                    if u > t and u in m and f <= live[t][1] and live[t][0] <= l:
                        must('apart while alive', Or(m[u][0] + m[u][1] <= o, o + b <= m[u][0]))
            e = ends[0]
            for x in ends[1:]:
                e = Max(e, x)
            must('total', total == e)
            return ok
        return Case(run, dict.fromkeys(KEYS, True), False, {'last': last, 'x': lastx, 'sizes': sizes, 'alignment': p})
    return fn


class Done(BaseException):
    pass


INV = ('blocks partition [0, end)', 'block sizes are positive multiples', 'tags are distinct', 'every stored tensor is tagged', 'recorded place is its block',
       'large enough', 'places do not move', 'end is the largest recorded', 'records are copies', 'total')


def step(tags, new, last):
    """loop over the executed nodes: from any block list that satisfies the invariant, one more node keeps it; leaving the loop, the
    total is the end of the blocks.  tags: '' free, 'd' stored and dead, 'a' stored and alive; new: number of tensors to place"""
    def fn(v):
        from onnx_tool.graph import Graph
        from onnx_tool.utils import ModelConfig
        pad = 64
        names = ['%s%d' % (t, k) if t else '' for k, t in enumerate(tags)]
        stored, fresh = [n for n in names if n], ['n%d' % k for k in range(new)]
        sizes = {t: v.int('size_' + t, 1, 9000) if v.native else v.int('size_' + t, 1) for t in stored + fresh}
        blocks, at = [], 0
        for k, n in enumerate(names):
            b = (v.int('block%d' % k, 1, 200) if v.native else v.int('block%d' % k, 1)) * pad
            if n:
                v.require(b >= sizes[n])
            blocks.append([at, b])
            at = at + b
        gone = v.int('former end', 0, 10 ** 6) if v.native else v.int('former end', 0)       # where released tensors once ended
        v.require(gone <= at)
        ends = [gone] + [b[0] + b[1] for b, n in zip(blocks, names) if n]
        e = ends[0]
        for x in ends[1:]:
            e = Max(e, x)
        if blocks:
            v.require(e == at)
        else:
            v.require(gone == 0)
        live = [n for n in stored if n[0] == 'a'] + fresh
        gp = oh.make_graph([oh.make_node('Custom', ['x'], stored + fresh, 'n')] if stored + fresh else [oh.make_node('Custom', ['x'], ['y'], 'n')], 'g',
                           [oh.make_tensor_value_info('x', onnx.TensorProto.INT8, [1])], [oh.make_tensor_value_info(o, onnx.TensorProto.INT8, None) for o in stored + fresh])

        def run():
            g = Graph(gp, ModelConfig({}))
            for t, s in sizes.items():
                g.tensormap[t].update_shape([s])
                g.tensormap[t].update_dtype(np.int8)
            if v.native:
                g.compress_memory(pad)          # the loop state is not reachable natively; whole plans are run by the other contracts
                return dict.fromkeys(INV, True)
            from pyvc import loops
            from pyvc.path import Gone
            ok = dict.fromkeys(INV, True)
            res = {}

            def must(k, c):
                ok[k] = And(ok[k], c)

            def accepts(loc, it):
                return not res and 'mem_tags' in loc and 'mem_block' in loc and 'compress_mem' in loc and it is loc.get('tensor_mem_per_node') and not loc['mem_tags']

            def iterate(loc, it):
                mt, mb, cm = loc['mem_tags'], loc['mem_block'], loc['compress_mem']
                if not (type(mt) is list and type(mb) is list and type(cm) is dict):
                    raise Gone('other loop state')
                mt[:] = names
                mb[:] = [list(b) for b in blocks]
                cm.update({n: list(b) for n, b in zip(names, blocks) if n})
                old = {n: list(b) for n, b in cm.items()}
                res['cut'] = True
                it[:] = []
                if last:
                    cm['gone'] = [0, gone]
                    return
                yield list(live)
                pos = 0
                for b in mb:
                    must('blocks partition [0, end)', b[0] == pos)
                    must('block sizes are positive multiples', And(b[1] > 0, b[1] % pad == 0))
                    pos = b[0] + b[1]
                used = [t for t in mt if t != '']
                must('tags are distinct', len(set(used)) == len(used) and len(mt) == len(mb))
                must('every stored tensor is tagged', set(live) <= set(used))
                now = gone
                for t in old:
                    now = Max(now, old[t][0] + old[t][1])
                for t, b in zip(mt, mb):
                    if t == '':
                        continue
                    if t not in cm:
                        must('recorded place is its block', False)
                        continue
                    must('recorded place is its block', And(cm[t][0] == b[0], cm[t][1] == b[1]))
                    must('large enough', b[1] >= sizes[t])
                    now = Max(now, cm[t][0] + cm[t][1])
                for t in old:
                    must('places do not move', t in cm and And(cm[t][0] == old[t][0], cm[t][1] == old[t][1]))
                must('end is the largest recorded', pos == now)
                ids = [id(b) for b in mb] + [id(b) for b in cm.values()]
                must('records are copies', len(set(ids)) == len(ids))
                raise Done()
            loops.CUT[:] = [(accepts, iterate)]
            try:
                m, total = g.compress_memory(pad)
                if not res:
                    raise Gone('the loop over the executed nodes has another form')
                must('total', total == at)
            except Done:
                pass
            finally:
                loops.CUT[:] = []
            return ok
        return Case(run, dict.fromkeys(INV, True), False, {'tags': tags, 'new': new})
    return fn


def lifetimes(n):
    """last uses of the outputs of n nodes"""
    return itertools.product(*[[*range(k + 1, n), None] for k in range(n)])


# ------------------------------------------------------------------ the inference memory pool on top of a plan
class View:
    """stand-in for a tensor of the pool: which bytes it shows, and how (torch is not installed; its views act as documented)"""

    def __init__(self, start, nbytes, item, shape):
        self.start, self.nbytes, self.item, self.shape = start, nbytes, item, shape

    def __getitem__(self, s):
        assert type(s) is slice and s.step is None and self.item == 1
        return View(self.start + s.start, s.stop - s.start, 1, None)

    def view(self, dtype=None):
        return View(self.start, self.nbytes, dtype[1], None)

    def reshape(self, *sh):
        sh = sh[0] if len(sh) == 1 and isinstance(sh[0], (list, tuple)) else sh
        return View(self.start, self.nbytes, self.item, list(sh))

    def narrow(self, dim, start, length):
        assert dim == 0 and self.item == 1
        return View(self.start + start, length, 1, None)

    def element_size(self):
        return self.item


def torch():
    import types
    t = types.ModuleType('torch')
    for n, b in BYTES.items():
        setattr(t, n, (n, b))
    t.dtype, t.Tensor = tuple, View
    t.empty = lambda n, dtype=None, device=None: View(0, n * dtype[1], dtype[1], [n])
    t.tensor = lambda x, dtype=None: View(0, 0, dtype[1], [0])
    return t


def pool_class():
    """the class of the tree's inference/memory_pool.py"""
    import importlib.util, os, sys
    f = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'inference', 'memory_pool.py')
    old = sys.modules.get('torch')
    sys.modules['torch'] = torch()
    try:
        spec = importlib.util.spec_from_file_location('memory_pool_under_proof', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        if old is None:
            sys.modules.pop('torch')
        else:
            sys.modules['torch'] = old
    return m.MemoryPool


def blocks(v, n):
    return {'t%d' % k: [v.int('offset%d' % k), v.int('size%d' % k)] for k in range(n)}


def pool_made(n):
    """a pool is made exactly for plans inside the total"""
    def fn(v):
        plan, total = blocks(v, n), v.int('total')
        bad = Or(total <= 0, *[Or(o < 0, s <= 0, o + s > total) for o, s in plan.values()])

        def run():
            p = pool_class()(dict(plan), total, ('float32', 4))
            return [len(p), sorted(p.keys()), p.compress_size, p.pool.nbytes, all(k in p for k in plan), 'other' in p]
        return Case(run, [n, sorted(plan), total, total, True, False], bad, {'plan': plan, 'total': total})
    return fn


def pool_get(dt, rank, how):
    """the tensor taken from the pool shows its planned bytes from the first on, as many as its elements need, never more than planned"""
    def fn(v):
        plan, total = blocks(v, 2), v.int('total')
        for o, s in plan.values():
            v.require(And(o >= 0, s >= 1, o + s <= total))
        o, s = plan['t1']
        v.require(s % BYTES[dt] == 0)
        sh = None if rank is None else [v.int('d%d' % k, 0) for k in range(rank)]
        n = None
        if sh is not None:
            n = BYTES[dt]
            for d in sh:
                n = n * d

        def run():
            p = pool_class()(dict(plan), total, (dt, BYTES[dt]))
            for _ in range(2):
                t = p['t1'] if how == 'item' else p.get_batch('t1', sh[0], sh[1:] if rank > 1 else None) if how == 'batch' else p.get('t1', shape=sh if how == 'list' else tuple(sh))
            return [t.start, t.nbytes, t.item, t.shape]
        return Case(run, [o, s if sh is None else n, BYTES[dt], sh], False if sh is None else n > s, {'plan': plan, 'total': total, 'shape': sh})
    return fn


def entries(tier):
    for dt in BYTES:
        for r in ('any', 0):
            yield Entry('memory size/%s/rank %s' % (dt, r), ['C10'], memsize(dt, r))
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for last in lifetimes(n):
            for lastx in range(n):
                for wide in (False, True):
                    for pad in (64, 1, 5000) if n < 3 else (64,):
                        if wide and n >= 3:
                            continue
                        yield Entry('plan/%d nodes%s/last uses %s/input %d/alignment %s' % (n, '' if not wide else ', 2 outputs', ' '.join(map(str, last)), lastx, pad), ['C10'],
                                    plan(last, lastx, wide, pad), 'up to %d nodes, any tensor sizes' % n)
                    for earlier in ((1000,), (0, 4097)):
                        if n < 3 and not wide:
                            yield Entry('plan/%d nodes/last uses %s/input %d/alignment 64/after other plans %s' % (n, ' '.join(map(str, last)), lastx, list(earlier)), ['C10'],
                                        plan(last, lastx, wide, 64, earlier), 'up to 2 nodes, any tensor sizes')
    deep = 4 if tier == 'quick' else 5
    for k in range(deep + 1):
        for tags in itertools.product(('', 'd', 'a'), repeat=k):
            name = 'plan step/blocks [%s]' % ' '.join({'': 'free', 'd': 'dead', 'a': 'alive'}[t] for t in tags)
            yield Entry(name + '/leaving', ['C10'], step(tags, 0, True), 'up to %d blocks at a time' % deep)
            for new in range(3 if tier == 'quick' or k == 5 else 4):
                yield Entry(name + '/%d new' % new, ['C10'], step(tags, new, False), 'up to %d blocks at a time' % deep)
    for n in range(4):
        yield Entry('pool/made of %d tensors' % n, ['C10'], pool_made(n), 'listed numbers of tensors')
    for dt in ('float32', 'float16', 'float64', 'int8', 'int64'):
        yield Entry('pool/%s/whole' % dt, ['C10'], pool_get(dt, None, 'item'))
        for r in range(5):
            for how in ('list', 'tuple') + (('batch',) if r else ()):
                yield Entry('pool/%s/rank %d/%s' % (dt, r, how), ['C10'], pool_get(dt, r, how), 'listed ranks')
