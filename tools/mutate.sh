#!/bin/bash
# mutate.sh PROPS FILE PYTHON-EXPR-OLD PYTHON-EXPR-NEW : run checks on a scratch copy with one textual change
props=$1; file=$2; old=$3; new=$4
d=$(mktemp -d /tmp/mutXXXXXX)
git -C /repo archive HEAD | tar -x -C $d
python3 - "$d/$file" "$old" "$new" <<'P' || { rm -rf "$d"; exit 3; }
import sys
p,o,n=sys.argv[1:]
s=open(p).read()
if s.count(o)<1: print("NOT FOUND"); sys.exit(1)
open(p,'w').write(s.replace(o,n,1))
P
for p in $props; do
  SIM_EVIDENCE=$d VERIF_REPO=$d SIM_SECONDS=${SECS:-6} python3 /verif/run_check.py $p 2>&1 | tail -3 | cut -c1-260
done
rm -rf "$d"
