"""The command line (`python -m onnx_tool ...`), compared with what the same model's API calls and the model itself give."""
import os
import runpy
import sys
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh
from . import models
from .opgen import R, pick
from .core import quiet, short


def main(*args):
    old = sys.argv
    sys.argv = ['onnx_tool'] + [str(a) for a in args]
    try:
        with quiet():
            runpy.run_module('onnx_tool', run_name='__main__')
    finally:
        sys.argv = old


def saved(ctx, m, name='cli.onnx'):
    p = os.path.join(ctx.tmp, name)
    onnx.save_model(m, p)
    return p


def profile(ctx, n):
    import onnx_tool
    rng = ctx.rng
    for _ in range(n):
        if ctx.timeup():
            return
        m, feeds, outs, vals = models.model(rng)
        m = onnx.ModelProto.FromString(m.SerializeToString())
        ops = sorted({k.op_type for k in m.graph.node})
        excl = [o for o in ops if rng.random() < .4]
        rep = {'model': models.text(m), 'exclude': excl}
        p, a, b = saved(ctx, m), os.path.join(ctx.tmp, 'cli.csv'), os.path.join(ctx.tmp, 'api.csv')
        args = ['-i', p, '-f', a] + (['-e', ','.join(excl)] if excl else [])
        if rng.random() < .5 and feeds and all(v.dtype == np.float32 and v.ndim for v in feeds.values()):
            # the declared extents are forgotten and given on the command line instead
            for i in m.graph.input:
                for k, d in enumerate(i.type.tensor_type.shape.dim):
                    d.dim_param = 'd%d' % k
            p = args[1] = saved(ctx, m, 'dyn.onnx')
            args += ['-d'] + ['%s:f32:%s' % (k, 'x'.join(map(str, v.shape))) for k, v in feeds.items()]
            shapes = {k: np.zeros(v.shape, np.float32) for k, v in feeds.items()}
        else:
            shapes = None
        ctx.eval(('cli profile', ops, excl, shapes is None), args)
        try:
            with quiet():
                onnx_tool.model_profile(p, shapes, exclude_ops=list(excl) or None, save_profile=b)
        except Exception:
            continue
        try:
            main(*args)
            got = open(a).read()
        except (Exception, SystemExit) as e:
            ctx.fail('cli/profile/error', '%s raised %r' % (args, e), rep)
            continue
        want = open(b).read()
        if sorted(got.splitlines()) != sorted(want.splitlines()):
            ctx.fail('cli/profile', '%s wrote %s, the call wrote %s' % (args[4:], short(got), short(want)), rep)
        os.remove(a)


def files(ctx, n):
    rng = ctx.rng
    for _ in range(n):
        if ctx.timeup():
            return
        m, feeds, outs, vals = models.model(rng)
        m = onnx.ModelProto.FromString(m.SerializeToString())
        rep = {'model': models.text(m)}
        p, q = saved(ctx, m), os.path.join(ctx.tmp, 'out.onnx')
        new = {}
        for i in list(m.graph.input) + list(m.graph.output):
            t = i.type.tensor_type
            if i.name not in new and len(t.shape.dim) and rng.random() < .6:
                new[i.name] = [R(rng, 1, 99) if rng.random() < .5 else pick(rng, ['n', 'batch', 'w1', 'Seq']) for _ in t.shape.dim]
        args = ['-m', 'io_modify', '-i', p, '-o', q]
        if new:
            args += ['-d'] + ['%s:%s' % (k, 'x'.join(map(str, v))) for k, v in new.items()]
            ctx.eval(('cli io', args[7:]), args)
            try:
                main(*args)
                s = onnx.load_model(q)
            except (Exception, SystemExit) as e:
                ctx.fail('cli/io/error', '%s raised %r' % (args, e), rep)
                continue
            for side in ('input', 'output'):
                old = {i.name: i for i in getattr(m.graph, side)}
                for i in getattr(s.graph, side):
                    dims = [d.dim_param or d.dim_value for d in i.type.tensor_type.shape.dim]
                    want = new.get(i.name) or [d.dim_param or d.dim_value for d in old[i.name].type.tensor_type.shape.dim]
                    if dims != want or i.type.tensor_type.elem_type != old[i.name].type.tensor_type.elem_type:
                        ctx.fail('cli/io', '%s: %s %s is declared %s, expected %s' % (args[6:], side, i.name, dims, want), rep)
                if {i.name for i in getattr(s.graph, side)} != set(old):
                    ctx.fail('cli/io/names', '%ss are %s' % (side, [i.name for i in getattr(s.graph, side)]), rep)
        half = rng.random() < .4
        used = {i for k in m.graph.node for i in k.input}
        ini = {i.name: nh.to_array(i) for i in m.graph.initializer if i.name in used}
        some = [k for k in ini if rng.random() < .6]
        d = os.path.join(ctx.tmp, 'exp')
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        args = ['-m', 'export_tensors', '-i', p, '-o', d] + (['--names'] + some if some else []) + (['--fp16'] if half else [])
        ctx.eval(('cli export', sorted(ini), some, half), args)
        try:
            main(*args)
        except (Exception, SystemExit) as e:
            ctx.fail('cli/export/error', '%s raised %r' % (args, e), rep)
            continue
        want = {k: v for k, v in ini.items() if k in some or not some}
        if sorted(os.listdir(d)) != sorted(k + '.npy' for k in want):
            ctx.fail('cli/export/names', '%s wrote %s' % (args[5:], sorted(os.listdir(d))), rep)
            continue
        for k, v in want.items():
            a = np.load(os.path.join(d, k + '.npy'))
            if half and v.dtype in (np.float32, np.float64):
                with np.errstate(all='ignore'):
                    v = v.astype(np.float16)
            if a.shape != v.shape or a.dtype != v.dtype or a.tobytes() != v.tobytes():
                ctx.fail('cli/export/value', '%s: %s is %s %s' % (args[5:], k, a.dtype, short(a.tolist())), rep)


def folding(ctx, m, api, rep):
    """what the command line saves is what the call saved"""
    p, q = saved(ctx, m), os.path.join(ctx.tmp, 'fold.onnx')
    try:
        main('-m', 'constant_folding', '-i', p, '-o', q)
        k = onnx.load_model(q)
    except (Exception, SystemExit) as e:
        ctx.fail('cli/fold/error', 'the command line raised %r' % e, rep)
        return
    if k.graph.SerializeToString(deterministic=True) != api.graph.SerializeToString(deterministic=True):
        ctx.fail('cli/fold', 'the command line saved another graph than the call: nodes %s, %s' % ([n.name for n in k.graph.node], [n.name for n in api.graph.node]), rep)
