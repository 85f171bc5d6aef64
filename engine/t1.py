import prog, pickle, os, sys, time
P='/tmp/prog.pkl'
if not os.path.exists(P) or '-r' in sys.argv:
    p=prog.load(); pickle.dump(p,open(P,'wb'))
else: p=pickle.load(open(P,'rb'))
from spec import *
from fol import *
def show(con, fn, cfg):
    t=time.time()
    g=generate(p,con,fn,cfg,{})
    print(fn['qn'], [x['t'] for x in fn['params']], cfg, 'obls',len(g.obls),'gen %.2f'%(time.time()-t), g.stat)
    for o in g.obls:
        r=prove(o.hyps,o.goal,timeout=10)
        if r.status!='valid' or '-v' in sys.argv: print('   ',r.status,'%.2f'%r.t,r.ninst,o.kind,o.label,o.loc)
    return g
con=Contract('pe_bliss::pe_base::rva_to_file_offset', maythrow=True)
for f in con.matches(p): show(con,f,32)
con=Contract('pe_bliss::pe_base::section_from_rva', maythrow=True)
for f in con.matches(p): show(con,f,32)
con=Contract('pe_bliss::pe_base::section_data_from_rva', maythrow=True)
for f in con.matches(p)[:]: show(con,f,32)
