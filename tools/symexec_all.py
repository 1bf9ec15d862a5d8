import sys,time,traceback
sys.path[:0]=['/verif','/repo']
from pyvc.run import *
from pyvc.interp import REPO
import os
names = sys.argv[1:] or sorted(f[:-3] for f in os.listdir('/repo/solver') if f.endswith('.py') and f!='__init__.py')
import signal
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM,h)
ok=0
for n in names:
    t=time.time()
    signal.alarm(60)
    try:
        it,ps=run_solver(n)
        ok+=1
        print(n,'OK',len(ps),'paths',f'{time.time()-t:.1f}s',it.checks)
        if len(sys.argv)==2:
            for p in ps:
                print(p.pc,p.kind); 
                v=p.value
                for x in getattr(v,'pieces',[v]): print('   ',repr(x)[:600])
                for r in p.raises: print('  RAISE',r)
    except Unsupported as e:
        signal.alarm(0); print(n,"UNSUP",getattr(e,"where",""),e, f"{time.time()-t:.1f}s")
        if os.environ.get("TB"): traceback.print_exc()
    except TO: print(n,'TIMEOUT')
    except Exception as e:
        signal.alarm(0)
        print(n,'EXC',type(e).__name__,e); 
        if len(sys.argv)<=3: traceback.print_exc()
    signal.alarm(0)
print(ok,len(names))
