"""Dynamic shapes: the regressed engine at every sampled assignment against the reference evaluator's shapes."""
import numpy as np
from .opgen import R, pick
from .core import quiet, short
from . import models, dyn

def affine(shapes, assigns, rg):
    """per axis the single variable (or None) it is an integer affine function of; False when some extent is not"""
    vs = list(rg)
    res = []
    n = {len(s) for s in shapes}
    if len(n) != 1:
        return False
    for ax in range(n.pop()):
        ys = [s[ax] for s in shapes]
        if len(set(ys)) == 1:
            res.append(None)
            continue
        for v in vs:
            pts = {}
            if any(pts.setdefault(a[v], y) != y for a, y in zip(assigns, ys)):
                continue
            xs = sorted(pts)
            k, rem = divmod(pts[xs[-1]] - pts[xs[0]], xs[-1] - xs[0])
            if rem == 0 and k != 0 and all(pts[x] == pts[xs[0]] + k * (x - xs[0]) for x in xs):
                res.append(v)
                break
        else:
            return False
    return res


def run(ctx):
    rng = ctx.rng
    with ctx.section('regress'):
        for i in range(ctx.n(150, 2500)):
            if ctx.timeup():
                break
            d = dyn.build(rng)
            if not d:
                continue
            m, desc, rg = d
            vs = list(rg)
            ass = [{v: rg[v][e] for v in vs} for e in (0, 1)]
            for v in vs:
                for x in {rg[v][0], rg[v][1], (rg[v][0] + rg[v][1]) // 2, R(rng, *rg[v])}:
                    ass.append({w: x if w == v else rg[w][0] for w in vs})
            ass += [{v: R(rng, *rg[v]) for v in vs} for _ in range(4)]
            try:
                truth = [dyn.true_shapes(m, desc, a) for a in ass]
            except Exception:
                continue
            kinds = {t: affine([s[t] for s in truth], ass, rg) for t in truth[0]}
            if any(k is False for k in kinds.values()):
                continue
            rep = {'model': models.text(m), 'description': desc, 'ranges': rg}
            ctx.eval(('r', str(rep)), rep)
            try:
                with quiet():
                    g = models.load(m)
                    if rng.random() < .3:
                        # the same graph described before over other ranges
                        g.shape_regress({t: list(x) for t, x in desc.items()}, {v: [x[0], x[1] + 3] for v, x in rg.items()})
                    e = g.shape_regress({t: list(x) for t, x in desc.items()}, {v: list(x) for v, x in rg.items()})
            except Exception as er:
                import traceback
                ctx.fail('regress/error', '%r %s' % (er, traceback.format_exc()[-500:]), rep)
                continue
            missing = [t for t in truth[0] if t in g.dynamics and t not in e.tensor_desc and kinds[t] and any(kinds[t])]
            if missing:
                ctx.fail('regress/missing', 'no description of %s' % missing, rep)
            for a, tr in zip(ass, truth):
                try:
                    for v in vs:
                        e.update_variable(v, a[v])
                    e.update_variables()
                    for t in e.tensor_desc:
                        if t in tr and tuple(e.get_tensorshape(t)) != tr[t]:
                            ctx.fail('regress/shape', 'at %s tensor %s has shape %s, engine gives %s (%s)' % (a, t, tr[t], e.get_tensorshape(t), e.tensor_desc[t]), rep)
                            break
                except Exception as er:
                    ctx.fail('regress/lookup', 'at %s: %r' % (a, er), rep)
                    break
            # changing one variable changes the extents that depend on it and no others
            v = pick(rng, vs)
            a = {w: rg[w][0] for w in vs}
            try:
                for w in vs:
                    e.update_variable(w, a[w])
                e.update_variables()
                before = {t: list(e.get_tensorshape(t)) for t in e.tensor_desc}
                e.update_variable(v, rg[v][1])
                e.update_variables()
                for t, b in before.items():
                    if t not in kinds:
                        continue
                    ch = [x != y for x, y in zip(b, e.get_tensorshape(t))]
                    if ch != [k == v for k in kinds[t]]:
                        ctx.fail('regress/updates', 'after changing %s the extents %s of %s changed, %s depend on it' % (v, ch, t, kinds[t]), rep)
                        break
            except Exception as er:
                ctx.fail('regress/update-error', '%r' % er, rep)
