import sys; sys.path.insert(0,'/verif')
import torch,warnings; warnings.simplefilter('ignore'); torch.set_num_threads(1)
from dst import zoo, runner
from props import p06
from collections import Counter
import os
names=sys.argv[1:] or zoo.NAMES
for n in names:
    p06.pick=lambda ctx,n=n:(n,ctx.pick('options',1<<16))
    for sc in ('resume','deploy'):
        kinds=Counter(); ex={}
        for s in range(12):
            r=runner.run_one(p06.CHECK.scenarios[sc],seed=s)
            k=r['kind'] or ('ERR' if r['error'] else None)
            if k: kinds[k]+=1; ex.setdefault(k,(r['msg'] or r['error'])[:60]+ ' ... '+(r['msg'] or r['error'])[-180:].replace('\n',' | '))
        if kinds: print(n,sc,dict(kinds)); [print('    ',v) for v in ex.values()]
