#!/bin/bash
# try.sh ID...: confirms each seed (demo on the clean tree, build, tests, demo with the patch) and runs its check.
# With NOTEST=1 the tests are skipped; with CHECKS="C01 C02" other checks are run.
cd "$(dirname "$0")/../.." || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo isn't clean"; exit 1; }
for id in "$@"; do
  d=$PWD/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash "$d/demo.sh" > /tmp/demo.out 2>&1); a=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch fails"; continue; }
  bash /opt/vp/build.sh > /tmp/build.out 2>&1; b=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/t.json > /dev/null 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.json'))
l=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
print('missing %d'%len([x for x in l if x not in r['passed']]))")
  fi
  (cd /repo && bash "$d/demo.sh" > /tmp/demo2.out 2>&1); c=$?
  r=""
  for k in ${CHECKS:-$p}; do
    s=$(date +%s); bash check.sh $k quick > /tmp/check.$k.out 2>&1; e=$?
    r="$r $k=$e($(( $(date +%s)-s ))s)"
  done
  git -C /repo checkout -q -- .
  echo "$id [$p]: demo clean=$a build=$b tests=$t demo patched=$c checks:$r"
  grep -h "^violation" /tmp/check.*.out 2>/dev/null | head -2 | cut -c1-250; rm -f /tmp/check.*.out
done
bash /opt/vp/build.sh > /dev/null 2>&1
