#!/bin/bash
# ns.sh N cmd...: run cmd with a scratch copy /tmp/w/rN of /repo mounted on /repo and a copy of /verif on /verif (development only)
n=$1; shift
[ -d /tmp/w/r$n ] || { mkdir -p /tmp/w; cp -a /repo /tmp/w/r$n; }
rsync -a --delete --exclude .git --exclude replays --exclude evidence /verif/ /tmp/w/v$n/ 2>/dev/null || { rm -rf /tmp/w/v$n; cp -a /verif /tmp/w/v$n; }
mkdir -p /tmp/w/v$n/evidence /tmp/w/v$n/replays
exec unshare -rm bash -c 'mount --bind /tmp/w/r'$n' /repo && mount --bind /tmp/w/v'$n' /verif && cd /verif && exec "$@"' _ "$@"
