import sys; sys.path.insert(0,'/verif')
from bounded.core import *
from bounded import opgen as og
ctx=Ctx('X',1,'quick',600)
mode=sys.argv[1]; ops=sys.argv[2:] or list(og.ALL)
for op in ops:
    g=og.ALL[op]; inv0=ctx.invalid; ctx.group=op
    for i in range(60):
        c=g(ctx.rng)
        if mode=='shape':
            og.check_shape(ctx,c,'feed' if i%2 else 'declared','S')
        else: og.check_value(ctx,c,'V')
    if ctx.invalid-inv0: print(op,'invalid',ctx.invalid-inv0)
for k,f in ctx.failures.items(): print(k,f['count'],f['detail'][:300])
