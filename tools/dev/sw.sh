mod=$1; n=$2; shift 2
rm -rf /tmp/f/$mod
for s in "$@"; do timeout 800 python3-vt /verif/tools/dev/sweep.py $mod $n $s > /tmp/sw.$s.log 2>&1 & done; wait
for s in "$@"; do tail -1 /tmp/sw.$s.log|cut -c1-200; done
for s in "$@"; do grep /tmp/f /tmp/sw.$s.log; done | cut -c8-${W:-230} | sed 's/^[^ ]*\///' | sort -k2 | head -${TOP:-20}
