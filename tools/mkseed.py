#!/usr/bin/env python3
"""mkseed.py ID PROPERTY MODULE CASE.json PATCH 'needs' 'breaks': build seeded/ID from a case (on the unchanged, built tree)."""
import sys, os, json, shutil, importlib, tempfile, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib import core
sid, pid, modname, casef, patch, needs, breaks = sys.argv[1:8]
mod = importlib.import_module(modname)
case = json.load(open(casef)); case = case.get("case", case)
tmp = tempfile.mkdtemp(dir="/dev/shm")
ctx = core.Ctx(tmp); calls = []
orig = ctx.run
def run(prog, args=(), np=1, threads=1, **k):
    if not calls:
        shutil.copytree(ctx.dir, os.path.join(tmp, "input"))
    calls.append((prog, list(args), np, threads))
    return orig(prog, args, np=np, threads=threads, **k)
ctx.run = run
ctx.begin()
mod.check(case, ctx)
d = os.path.join(ROOT, "seeded", sid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
shutil.copytree(os.path.join(tmp, "input"), os.path.join(d, "input"), ignore=shutil.ignore_patterns(".out", ".err", "results"))
shutil.copy(os.path.join(ROOT, "tools", "seed_compare.py"), os.path.join(d, "compare.py"))
subprocess.check_call(["python3", os.path.join(d, "compare.py"), os.path.join(ctx.dir, "results", "last"), "x", os.path.join(d, "expected.json.gz"), "--write"])
prog, args, np, th = calls[0]
cmd = ("" if np == 1 else "mpirun --allow-run-as-root --oversubscribe --bind-to none -n %d " % np) + "/repo/build/%s %s" % (prog, " ".join(args))
with open(os.path.join(d, "demo.sh"), "w") as f:
    f.write("""#!/bin/bash
# runs the program on the input beside this script and compares what it stored with the right result
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/input/." "$tmp/" && cd "$tmp" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export LD_LIBRARY_PATH=/repo/build:$LD_LIBRARY_PATH OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMP_NUM_THREADS=%d
timeout 120 %s > out.txt 2>&1 || { tail -5 out.txt; echo "run failed"; exit 1; }
python3 "$here/compare.py" results/last x "$here/expected.json.gz"
""" % (th, cmd))
os.chmod(os.path.join(d, "demo.sh"), 0o755)
shutil.copy(patch, os.path.join(d, "patch.diff"))
json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
shutil.rmtree(tmp)
print(d, subprocess.call(["bash", os.path.join(d, "demo.sh")], cwd="/repo"))
