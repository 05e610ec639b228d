#!/bin/bash
# Development tool: seedtest.sh <id>... : confirm planted changes (demo both ways, tests, check). Edits /repo and undoes it.
cd /repo; [ -z "$(git status --short)" ] || { echo "/repo is not clean"; exit 3; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d); cp $d/* $t/; rm -f $t/*.diff $t/meta.json
  bash /opt/vp/build.sh >/dev/null 2>&1
  timeout 300 bash $t/demo.sh >/tmp/seed.$id.clean 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.$id.build 2>&1
  n=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x): return set(x) if isinstance(x,list) else set(x.get('passed',x.get('stable',[])))
bb=b['stable']
print(len(set(bb)-set(r['passed'])) if bb else 'nobase')
P
)
  bash /opt/vp/build.sh >/dev/null 2>&1
  timeout 300 bash $t/demo.sh >/tmp/seed.$id.bad 2>&1; b=$?
  s=$(date +%s); (cd /verif && timeout 900 python3 bin/check.py $p quick >/tmp/seed.$id.check 2>&1); c=$?
  v=$(grep -c "^VIOLATION property=$p " /tmp/seed.$id.check)
  git checkout -q -- .
  rm -rf "$t"
  echo "$id [$p]: demo clean=$a patched=$b; stable tests lost=$n; check exit=$c violations=$v ($(( $(date +%s) - s )) s)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
