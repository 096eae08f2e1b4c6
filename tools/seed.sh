#!/bin/bash
# seed.sh test ID...   : confirm demos (pass on /repo, fail with the patch) in scratch copies, and run the check
# seed.sh check ID...  : run only the property's check against the planted bug (on a scratch copy of the headers)
mode=$1; shift
for id in "$@"; do
  d=${VF:-/verif}/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seed_XXXXXX)
  mkdir $w/repo; cp -a ${BASE:-/repo}/include $w/repo/ 2>/dev/null
  (cd $w/repo && git init -q . && git apply $d/patch.diff) || { echo "$id: patch does not apply"; rm -rf "$w"; continue; }
  if [ $mode = test ]; then
    cp -a $d $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json
    (cd ${BASE:-/repo} && timeout 300 bash $w/demo/demo.sh >$w/o1 2>&1); a=$?
    (cd $w/repo && timeout 300 bash $w/demo/demo.sh >$w/o2 2>&1); b=$?
    echo "$id: demo unchanged=$a patched=$b"
    [ $a = 0 ] || tail -5 $w/o1
    tail -2 $w/o2
  fi
  o=$(cd ${VF:-/verif} && VC_REPO=$w/repo timeout 900 python3-vt run.py $prop 2>&1); rc=$?
  echo "$id: check $prop exit=$rc"; echo "$o" | grep -E "VIOLATION|failed obl|UNDEC|ERROR" | head -5
  rm -rf "$w"
done
