out=$1; shift
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
bash /opt/vp/build.sh > $out.build 2>&1 || { echo BUILD FAILED; tail -20 $out.build; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $out.json > $out.test 2>&1
python3 - $out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
base=set(b['stable']); p=set(r['passed'])
print("TESTS", "ok" if base<=p else "FAIL %d: %s"%(len(base-p),sorted(base-p)[:5]))
P
fi
for p in "$@"; do python3-vt run.py $p --no-build 2>&1 | cut -c1-400 | tail -4; done
