# explore a config, log slow queries (>0.5s) grouped by call site
import sys,time
exec(open('/verif/tools/dev/prof.py').read().split("c=core.Ctx(prefix")[0])
rng=random.Random(1)
pend=[[]]; n=0; sites={}; T0=time.time(); LIM=float(sys.argv[3]) if len(sys.argv)>3 else 40
import traceback, signal
class T(BaseException): pass
def al(*a): raise T()
signal.signal(signal.SIGALRM, al); signal.alarm(int(LIM)+5)
try:
  while pend and time.time()-T0<LIM:
    prefix=pend.pop(rng.randrange(len(pend))); n+=1
    c=core.Ctx(prefix, core.Stats(), h.timeout_ms, h.branches, 1); core.set_ctx(c); c.lemmas=h.lemmas; c.eig_signs=h.eig_signs
    s=session.Sess(h,cfg,ld,c,None)
    orig=c.check
    def check(*fs,orig=orig,**kw):
        t=time.time(); r=orig(*fs,**kw); d=time.time()-t
        st=[f'{f.filename.rsplit("/",1)[1]}:{f.lineno}' for f in traceback.extract_stack() if '/pygsp/' in f.filename or '/harness/' in f.filename]
        k=(st[-1] if st else '?', str(r)); v=sites.setdefault(k,[0,0,'']); v[0]+=1; v[1]+=d
        if d>0.5: v[2]=str(fs)[:700].replace('\n',' ')
        return r
    c.check=check
    t=time.time()
    try: h.fn(s,**cfg)
    except T: raise
    except BaseException as e: print('EXC',type(e).__name__,str(e)[:200])
    print(n, round(time.time()-t,2), [k for k in s.checks if k[1]!='holds'], s.env)
    pend.extend(c.pending)
except T: pass
print('left',len(pend))
for k,v in sorted(sites.items(),key=lambda t:-t[1][1])[:8]: print(k,v[0],round(v[1],1),v[2])
