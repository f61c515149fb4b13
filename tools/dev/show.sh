mod=$1; shift
for f in "$@"; do echo "== $f"; python3-vt /verif/tools/dev/one.py $mod /tmp/f/$mod/$f.json 2>&1 | sed 's/\x1b\[[0-9;]*m//g' | tr '\n' ' ' | tail -c 250; echo; python3 -c "
import json;c=json.load(open('/tmp/f/$mod/$f.json'))
for k,v in c.items(): print('     ',k,json.dumps(v))"; done
