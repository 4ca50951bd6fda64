"""Development driver: dev.py MODULE [contract substrings]."""
import sys,time,importlib
sys.dont_write_bytecode=True
import os; sys.path[:0]=['/verif',os.environ.get('PYVC_REPO','/repo')]
from pyvc.driver import *
import random
m=importlib.import_module('contracts.'+sys.argv[1])
for c in m.CONTRACTS:
    if len(sys.argv)>2 and not any(a in c.name for a in sys.argv[2:]): continue
    if not c.bounded:
        p=Prover(c, time.time()+float(os.environ.get("BUDGET","120"))); r=p.explore()
        print('%-28s'%c.name, 'obl',r.obligations,'dis',r.discharged,'paths',r.paths,'fin',r.final_paths,'be',r.backedges,'wall %.1f solver %.1f'%(r.wall,r.stats.solver_s), 'checks',r.stats.checks)
        for x in r.refuted[:4]: print('  REFUTED',x[0],repr(x[1])[:300], native_check(c,x[1]) if x[1] else None)
        for x in r.undecided[:4]: print('  UNDEC',x)
    if c.gen:
        rr=random.Random(1); t=time.time(); n=0; bad=0; kinds={}
        while time.time()-t<2:
            i=c.gen(rr); n+=1
            d=native_check(c,i)
            k=run_native(c,c.spec,i)
            kk=k[0] if k[0]!='exc' else k[1].__name__
            kinds[kk]=kinds.get(kk,0)+1
            if d:
                bad+=1
                if bad<3: print('  NATIVE MISMATCH',repr(i)[:400],d)
        print('  native',n,kinds,'bad',bad)
