import sys,json,copy,itertools,tempfile,re; sys.path.insert(0,'/verif')
from vlib import core
from checks import feti_config as C
from concurrent.futures import ProcessPoolExecutor
mesh={"dim":3,"n":[4,4,4],"kinds":["hexa"],"quadratic":0,"jitter":1,"perm":1,"scale":[1,1,1],"shift":[0,0,0],"gaps":[]}
def heat():
    return {"kind":"heat","mesh":mesh,"nreg":1,"emode":"slices","seed":3,"time":1,"mat":[{"model":"ISOTROPIC","cs":{},"k":{"KXX":"10"}}],"source":{"ALL":"3 * COORDINATE_X"},"adv":{},"rho":["",""],"bc":{},"dir":"face","T":["5 * COORDINATE_Y",""]}
def struct():
    return {"kind":"struct","mesh":mesh,"nreg":1,"emode":"slices","seed":3,"time":1,"mat":[{"EX":"1e5","MIXY":"0.3","DENS":"3"}],"stress":False,"acc":{"ALL":{"X":"10","Z":"20 * COORDINATE_X"}},"ang":{},"bc":{},"fix":"full","dirface":False,"U":[{"X":"0","Y":"0","Z":"0"}]*3,"ucomp":"X"}
base={"METHOD":"TOTAL_FETI","DUAL_OPERATOR":"IMPLICIT","PROJECTOR":"ORTHOGONAL","PROJECTOR_OPT":"DEFAULT","PRECONDITIONER":"DIRICHLET","ITERATIVE_SOLVER":"PCG","REGULARIZATION":"ANALYTIC"}
def go(a):
    kind,np,dom,th,var=a
    c=(heat if kind=="heat" else struct)()
    o=dict(base); o.update(var)
    c["run"]={"np":np,"threads":th,"decomposer":"","domains":dom,"solver":"FETI","feti":o}
    ctx=core.Ctx(tempfile.mkdtemp(prefix="one",dir="/dev/shm"),20); ctx.begin()
    try: C.check(c,ctx); r="ok"
    except core.Violation as e:
        t=re.sub(r"\x1b\[[0-9;]*m","",str(e)); m=[l for l in t.splitlines() if "ERROR" in l or "rror" in l]
        r="VIOL "+(t.splitlines()[0][:100])+" | "+(m[-1][:120] if m else t[-150:])
    except core.Inconclusive as e: r="INC "+str(e)[:80]
    ctx.end()
    return a,r
V=[{}]+[{"METHOD":"HYBRID_FETI"}]
for m in ("TOTAL_FETI","HYBRID_FETI"):
    for k,vs in {"DUAL_OPERATOR":["EXPLICIT","EXPLICIT_GENERALSCHUR_CPU","IMPLICIT_GENERALSPARSESOLVER_CPU"],"PROJECTOR":["CONJUGATE"],"PROJECTOR_OPT":["WITH_FACTORS","FULL","WITH_FACTORS|FULL"],
       "PRECONDITIONER":["NONE","LUMPED","DIRICHLET_IMPLICIT","DIRICHLET_GENERALSCHUR_CPU"],"ITERATIVE_SOLVER":["orthogonalPCG","SMALBE","MPRGP"],"REGULARIZATION":["ALGEBRAIC","SVD"]}.items():
        for v in vs: V.append({"METHOD":m,k:v})
if __name__=="__main__":
    jobs=[(k,np,d,1,v) for k in ("heat","struct") for np,d in ((1,1),(1,4),(3,1),(3,4)) for v in V]
    with ProcessPoolExecutor(6) as p:
        for a,r in p.map(go,jobs):
            if r!="ok": print(a[0],a[1],a[2],json.dumps(a[4]),r)
