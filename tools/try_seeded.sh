#!/bin/bash
# try_seeded.sh ID...: confirm planted changes in /repo and run the check of their property against each.
# Not used by any check.  /repo must be clean; it is restored after each.
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
cd /repo || exit 2
for id in "$@"; do
  d=/verif/seeded/$id
  [ -z "$(git status --porcelain -uno)" ] || { echo "/repo is not clean"; exit 2; }
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d); cp -r "$d" "$t/d"; rm -f "$t/d/patch.diff" "$t/d/meta.json"
  (timeout 300 bash "$t/d/demo.sh") > /tmp/seeded.$id.demo0 2>&1; d0=$?
  git apply "$d/patch.diff" || { echo "$id: does not apply"; rm -rf "$t"; continue; }
  if [ -z "$NOBUILD" ]; then
    bash /opt/vp/build.sh > /tmp/seeded.$id.build 2>&1; b=$?
    bash /opt/vp/test.sh /tmp/seeded.$id.json > /tmp/seeded.$id.test 2>&1
    n=$(python3 -c "import json
d=json.load(open('/tmp/seeded.$id.json')); want=json.load(open('/opt/vp/BASELINE.json'))
w=want.get('stable') or want.get('passed') or want.get('tests'); print(len(set(w)-set(d['passed'])))")
  else b=-; n=-; fi
  (timeout 300 bash "$t/d/demo.sh") > /tmp/seeded.$id.demo1 2>&1; d1=$?
  s=$(date +%s)
  out=""
  for p in ${PROPS:-$prop}; do
    (cd /verif && timeout 900 python3 check.py $p) > /tmp/seeded.$id.$p 2>&1; r=$?
    out="$out $p:rc=$r,$(grep -c "^VIOLATION property=$p " /tmp/seeded.$id.$p)"
  done
  git checkout -q -- .
  rm -rf "$t"
  echo "$id build=$b missing_tests=$n demo clean=$d0 patched=$d1 check$out ($(( $(date +%s)-s )) s)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
