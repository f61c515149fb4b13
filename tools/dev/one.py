import sys,json,importlib,os; sys.path.insert(0,'/verif')
from vlib import core
mod=importlib.import_module(sys.argv[1])
if hasattr(mod,"prepare"):
    import tempfile; mod.prepare(tempfile.mkdtemp(prefix="oneprep",dir="/dev/shm"))
case=json.load(open(sys.argv[2]))
case=case.get("case",case)
for kv in sys.argv[3:]:
    k,v=kv.split("="); ks=k.split("."); o=case
    for x in ks[:-1]: o=o[x]
    o[ks[-1]]=json.loads(v)
import tempfile; ctx=core.Ctx(tempfile.mkdtemp(prefix="one",dir="/dev/shm"),20); ctx.begin()
try: print(mod.check(case,ctx))
except core.Violation as e: print("VIOL",str(e)[-600:])
except core.Inconclusive as e: print("INC",str(e)[-600:])
if os.environ.get("KEEP"): print(ctx.dir)
else: ctx.end()
