import prog, pickle, os, sys, time, multiprocessing as mp, importlib, traceback
sys.path.insert(0,'/verif/contracts')
P='/tmp/prog.pkl'
if not os.path.exists(P) or '-r' in sys.argv:
    p=prog.load(); pickle.dump(p,open(P,'wb'))
else: p=pickle.load(open(P,'rb'))
import common
from spec import *
from fol import *
mods=sys.argv[1].split(',')
for m in mods: importlib.import_module(m)
for f_ in common.EXPANDERS: f_(p)
only=[a[5:] for a in sys.argv if a.startswith('-only')]
V='-v' in sys.argv
pat=[a[2:] for a in sys.argv if a.startswith('-m')]
def keep(c,f): return (not only or c.mod in only) and ( not pat or any(x in f['qn'] for x in pat))
jobs=[]
cons={}
for c in common.ALL:
    fs=c.matches(p)
    if not fs: print('NO MATCH',c.qn)
    for f in fs: cons[f['key']]=c
for c in common.ALL:
    for f in c.matches(p):
        if keep(c,f):
            for cfg in (c.cfgs[:1] if "-1" in sys.argv else c.cfgs): jobs.append((common.ALL.index(c),f['key'],cfg))
def run(j):
    ci,key,cfg=j; c=common.ALL[ci]; fn=p.funcs[key]
    t=time.time(); out=[]
    hd='%s(%s) %d'%(fn['qn'].replace('pe_bliss::',''),','.join(x['t'] for x in fn['params']).replace('pe_bliss::',''),cfg)
    try:
        g=generate(p,c,fn,cfg,{k:v for k,v in cons.items() if not v.opts.get('nocall')})
    except Exception as e:
        tb='' if not V else traceback.format_exc()
        return hd+' ERROR %s %s %s'%(type(e).__name__,e, tb)
    tg=time.time()-t; n=0; bad=0
    for o in g.obls:
        r=prove(o.hyps,o.goal,timeout=20)
        if r.status=='valid': n+=1
        else: bad+=1
        if r.status!='valid' or '-vv' in sys.argv: out.append('    %s %.2f inst=%d %s: %s @%s'%(r.status,r.t,r.ninst,o.kind,o.label,o.loc))
    cov=set()
    for k,pc in g.covers:
        if k in cov: continue
        r=prove(pc,z3.BoolVal(False),timeout=10)
        if r.status=='refuted': cov.add(k)
    return '%s: %d/%d gen %.1f all %.1f cover=%s %s %s\n%s'%(hd,n,n+bad,tg,time.time()-t,sorted(cov), '' if not g.failed_invs else g.failed_invs, g.invlog if V else '','\n'.join(out[:12]))
if __name__=='__main__':
    if len(jobs)==1: print(run(jobs[0]))
    else:
        with mp.Pool(8) as pool:
            for r in pool.imap(run,jobs): print(r.rstrip())
