#!/bin/bash
# mut.sh PID FILE SED...   run a check on a scratch copy of /repo with one sed edit applied
pid=$1; f=$2; shift 2
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo/pyHalo $d/pyHalo
for e in "$@"; do sed -i -E "$e" $d/$f; done
if diff -q /repo/$f $d/$f >/dev/null; then echo "NO CHANGE: $*"; rm -rf "$d"; exit 3; fi
VERIF_REPO=$d VERIF_EVIDENCE=$d/ev python3-vt /verif/check.py $pid 2>&1 | tail -${LINES_OUT:-3}
rm -rf "$d"
