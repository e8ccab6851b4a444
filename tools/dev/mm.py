import sys
sys.path.insert(0,'/verif')
from symx import run; run.setup()
from symx import session, core, loader as L
import random, json
hs=run.load_harnesses()
name=sys.argv[1]; cfg=json.loads(sys.argv[2])
h=[h for h in hs if h.name==name][0]
ld=L.Loader()
core.set_ctx(core.Ctx(stats=core.Stats())); ld.load('pygsp')
rng=random.Random(int(sys.argv[3]) if len(sys.argv)>3 else 1)
pend=[[]]
n=0
while pend and n<40:
    n+=1
    prefix=pend.pop(rng.randrange(len(pend)))
    c=core.Ctx(prefix, core.Stats(), h.timeout_ms, h.branches, 1); core.set_ctx(c)
    s=session.Sess(h,cfg,ld,c,None)
    br=[]
    orig=c.branch
    def branch(b,orig=orig,br=br):
        v=orig(b); br.append((b,v)); return v
    c.branch=branch
    try: h.fn(s,**cfg)
    except core.PathAbort: continue
    finally: pend.extend(c.pending)
    w=s.witness(rng)
    st,fails,conc=session.replay(h,cfg,w)
    r,wh=run.compare_obs(s,conc)
    print(n,st,r,wh)
    if r=='mismatch':
        env={c.keys[('in',k)].id:float(v) for k,v in conc.used.items() if ('in',k) in c.keys}
        for a in c.atoms:
            try: print(a.id,a.name,a.kind,a.lo,a.hi,core.atomf(a.id,env), core.show(a.arg) if isinstance(a.arg,dict) else [core.show(p) for p in a.arg[1]] if a.kind=='ext' else '')
            except Exception as e: print(a.name,e)
        for b,v in br: print(v, str(b.z).replace('\n',' ')[:300])
        break
