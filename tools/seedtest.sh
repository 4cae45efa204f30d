#!/bin/bash
# seedtest.sh <id> [check ids...]: confirms a seeded bug in /repo and runs the checks against it
id=$1; shift
S=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "BUILD0 FAILED"; exit 1; }
timeout 300 bash $S/demo.sh >/tmp/seed.demo0 2>&1; a=$?
[ $a = 0 ] || { echo "$id demo fails on unchanged tree ($a)"; tail -5 /tmp/seed.demo0; }
git apply $S/patch.diff || { echo "$id patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || echo "$id BUILD FAILED"
bash /opt/vp/test.sh /tmp/seed.out.json >/tmp/seed.test 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/seed.out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=b['stable']
passed=set(o.get('passed',[]))
miss=[t for t in base if t not in passed] if isinstance(base,list) else '?'
print('tests missing:',miss, len(passed))
P
timeout 300 bash $S/demo.sh >/tmp/seed.demo1 2>&1; b=$?
[ $b != 0 ] || echo "$id demo PASSES with the patch"
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in ${@:-$p}; do
  out=$(cd /verif && timeout 900 python3 checks/run.py $c 2>&1); r=$?
  echo "$id $c exit $r: $(echo "$out" | grep -v '^P[0-9]' | head -3 | cut -c1-220 | tr '\n' '|')"
done
git checkout -q -- .
