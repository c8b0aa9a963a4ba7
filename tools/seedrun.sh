#!/bin/bash
# seedrun.sh <seed id>...: run the property's check against a scratch copy of /repo with the planted change
for s in "$@"; do
d=$(mktemp -d /tmp/mut.XXXX); cp -a /repo/kio /repo/bitcask $d/
(cd $d && git apply --unsafe-paths --directory=$d /verif/seeded/$s/patch.diff 2>/dev/null || patch -s -p1 < /verif/seeded/$s/patch.diff) || { echo "$s: does not apply"; rm -rf "$d"; continue; }
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
t0=$(date +%s); KIO_REPO=$d timeout 1000 /verif/check.py $p > $d/log 2>&1; rc=$?; t1=$(date +%s)
echo "$s: $p exit $rc $((t1-t0))s $(grep -h VIOLATION $d/log | sed 's/replay=[^ ]*//')"; [ -n "$V" ] && tail -8 $d/log
rm -rf "$d"
done
