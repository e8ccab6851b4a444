import sys
sys.path.insert(0,'/verif')
from symx import run; run.setup()
from symx import session, core, loader as L
import random, cProfile, pstats, json
hs=run.load_harnesses()
name=sys.argv[1]; cfg=json.loads(sys.argv[2]); prefix=json.loads(sys.argv[3]) if len(sys.argv)>3 else []
h=[h for h in hs if h.name==name][0]
ld=L.Loader()
core.set_ctx(core.Ctx(stats=core.Stats())); ld.load('pygsp')
c=core.Ctx(prefix, core.Stats(), h.timeout_ms, h.branches, 1); core.set_ctx(c)
s=session.Sess(h,cfg,ld,c,None)
import signal
class T(BaseException): pass
def al(*a): raise T()
signal.signal(signal.SIGALRM, al); signal.alarm(int(sys.argv[4]) if len(sys.argv)>4 else 30)
pr=cProfile.Profile(); pr.enable()
import traceback
try: h.fn(s,**cfg)
except T: traceback.print_exc()
except BaseException: traceback.print_exc()
pr.disable(); signal.alarm(0)
for k in s.checks: print(k)
pstats.Stats(pr).sort_stats('cumtime').print_stats(35)
