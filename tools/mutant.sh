#!/bin/bash
# mutant.sh CHECK FILE OLD NEW: run a check against a scratch copy of /repo with a textual change
set -e
D=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/vistautils "$D/vistautils"
python3 - "$D/$2" "$3" "$4" <<'P'
import sys
p,o,n=sys.argv[1:]
s=open(p).read()
assert o in s, "not found"
open(p,'w').write(s.replace(o,n,1))
P
VMON_REPO=$D python3 /verif/run.py check "$1" 2>&1 | tail -${LINES_OUT:-4}
rm -rf "$D"
