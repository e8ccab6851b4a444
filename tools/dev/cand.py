import sys
sys.path.insert(0,'/verif')
from symx import run; run.setup()
from symx import session, core, loader as L
import random, json
hs=run.load_harnesses()
h=[h for h in hs if h.name==sys.argv[1]][0]; cfg=json.loads(sys.argv[2])
ld=L.Loader()
core.set_ctx(core.Ctx(stats=core.Stats())); ld.load('pygsp')
rng=random.Random(1); pend=[[]]; k=0
while pend and k<3:
    prefix=pend.pop(rng.randrange(len(pend)))
    c=core.Ctx(prefix, core.Stats(), h.timeout_ms, h.branches, 1); core.set_ctx(c); c.lemmas=h.lemmas; c.eig_signs=h.eig_signs
    s=session.Sess(h,cfg,ld,c,None)
    q=s._query
    def _query(label,neg,atoms,q=q):
        r=q(label,neg,atoms)
        if r!='holds': print(label,r,str(neg)[:1500])
        return r
    s._query=_query
    try: h.fn(s,**cfg)
    except core.PathAbort: continue
    finally: pend.extend(c.pending)
    if s.candidates:
        k+=1
        print(s.env)
        for l,m in s.candidates[:2]: print(l,{k:(float(v)) for k,v in m.items()}); print(session.replay(h,cfg,m)[:2])
        for a in c.atoms:
            if a.kind!='in': print(a.id,a.name,a.kind,core.show(a.arg) if isinstance(a.arg,dict) else '')
