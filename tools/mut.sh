#!/bin/bash
# mut.sh <file> <python-replace-old> <new> <check ids...>: run checks against a scratch copy with one textual change
f=$1; old=$2; new=$3; shift 3
d=$(mktemp -d /tmp/mut.XXXX); B=${MUT_BASE:-/repo}; cp -a $B/kio $B/bitcask $d/ 2>/dev/null
python3 - "$d/$f" "$old" "$new" <<'P'
import sys
p,o,n=sys.argv[1:4]; s=open(p).read()
assert s.count(o)>=1,'pattern not found'
open(p,'w').write(s.replace(o,n,1))
P
[ $? = 0 ] || { rm -rf "$d"; exit 9; }
for id in "$@"; do KIO_REPO=$d timeout 1000 /verif/check.py $id; echo "== $id exit $?"; done
rm -rf "$d"
