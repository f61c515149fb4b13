import sys,json,importlib,os,time,re; sys.path.insert(0,'/verif')
# usage: sweep.py module n seed ; failing cases to /tmp/f/<module>/<seed>-<i>.json
from vlib import core
from hypothesis import given,settings,seed,HealthCheck,Phase
mod=importlib.import_module(sys.argv[1])
if hasattr(mod,"prepare"):
    import tempfile; mod.prepare(tempfile.mkdtemp(prefix="oneprep",dir="/dev/shm"))
n=int(sys.argv[2]); wid=int(sys.argv[3])
ctx=core.Ctx("/dev/shm/sweep%d"%wid,20); os.makedirs(ctx.base,exist_ok=True)
out="/tmp/f/"+sys.argv[1]; os.makedirs(out,exist_ok=True)
cnt={}; i=0
def short(e):
    t=re.sub(r"\x1b\[[0-9;]*m","",str(e))
    try: t+=re.sub(r"\x1b\[[0-9;]*m","",open(ctx.dir+"/.out").read()+open(ctx.dir+"/.err").read())
    except Exception: pass
    r=[]
    for x in ("SIGABRT","SIGSEGV","malloc"):
        if x in t: r.append(x)
    fr=[m for m in re.findall(r"Source \"\.\./(src/[^\"]*)\", line (\d+)",t) if "eslog" not in m[0] and "systeminfo" not in m[0] and "backward" not in m[0]]
    # deepest frame of the first stack (frames are printed outermost first)
    for i,m in enumerate(fr):
        if i+1==len(fr) or "espreso.cpp" in fr[i+1][0] or "mesio.cpp" in fr[i+1][0]: r.append("%s:%s"%m); break
    l=[x.strip() for x in t.splitlines() if re.search(r"SOLVER ERROR|rror:|host vm:|did not finish",x)]
    r+=l[:1]
    return " ".join(" ".join(r).split())[:160] or " ".join(t.split())[:200]
@settings(max_examples=n,database=None,deadline=None,phases=[Phase.generate],suppress_health_check=list(HealthCheck),report_multiple_bugs=False)
@seed(wid)
@given(mod.strategy("quick"))
def t(case):
    global i
    ctx.begin(); t0=time.time(); k="ok"
    try: mod.check(case,ctx)
    except core.Inconclusive as e: k="inc "+str(e)[:60]
    except core.Violation as e:
        i+=1; k="VIOL"
        f="%s/%d-%d.json"%(out,wid,i); json.dump(case,open(f,"w"))
        print(f, short(e),flush=True)
    finally: ctx.end()
    d=time.time()-t0
    if d>8: print(wid,"SLOW %.1f"%d,json.dumps(case))
    cnt[k[:40]]=cnt.get(k[:40],0)+1
t(); print(wid,cnt)
