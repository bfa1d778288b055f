#!/bin/bash
# plant.sh ID... : confirm that seeded/ID is a bug (builds, passes stable tests, demo 0 -> nonzero) and see which checks catch it.
# Uses a scratch copy of /repo HEAD. Env: SECS (check time, default 40), CHECKS (default: the property of meta.json), NOTEST=1
set -u
for id in "$@"; do
  s=/verif/seeded/$id
  d=$(mktemp -d /tmp/plantXXXXXX)
  mkdir $d/repo $d/seed; git -C /repo archive HEAD | tar -x -C $d/repo
  cp $s/* $d/seed/; rm -f $d/seed/patch.diff $d/seed/meta.json
  (cd $d/repo && timeout 300 bash $d/seed/demo.sh >$d/demo0 2>&1); r0=$?
  (cd $d/repo && git init -q . && git apply $s/patch.diff) || { echo "$id: PATCH DOES NOT APPLY"; rm -rf $d; continue; }
  rm -rf $d/repo/.git
  (cd $d/repo && timeout 300 bash $d/seed/demo.sh >$d/demo1 2>&1); r1=$?
  t=skipped
  if [ -z "${NOTEST:-}" ]; then
    mkdir $d/vp; cp -r /opt/vp/driver /opt/vp/results.py /opt/vp/*.sh /opt/vp/*.json $d/vp/
    sed -i "s#cd /repo#cd $d/repo#; s#/repo/_build#$d/repo/_build#g; s#REPO=/repo#REPO=$d/repo#; s#/opt/vp/build.sh#$d/vp/build.sh#; s#/opt/vp/results.py#$d/vp/results.py#" $d/vp/build.sh $d/vp/test.sh
    bash $d/vp/test.sh $d/out.json > $d/test.log 2>&1
    t=$(python3 - $d/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('passed') or b.get('tests')
st=[x if isinstance(x,str) else x.get('id') for x in st]
miss=[x for x in st if x not in set(o['passed'])]
print('ok' if not miss else 'BROKEN:%d %s'%(len(miss),miss[:3]))
P
)
  fi
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  det=""
  for p in ${CHECKS:-$prop}; do
    o=$(SIM_EVIDENCE=$d VERIF_REPO=$d/repo SIM_SECONDS=${SECS:-40} python3 /verif/run_check.py $p 2>&1); rc=$?
    det="$det $p:$rc"
    [ $rc -ne 0 ] && det="$det[$(echo "$o" | grep -m1 -iE 'class|violation' | cut -c1-150)]"
  done
  echo "$id demo $r0->$r1 tests $t checks:$det"
  [ $r0 -ne 0 ] && tail -5 $d/demo0
  [ $r1 -eq 0 ] && tail -5 $d/demo1
  rm -rf "$d"
done
