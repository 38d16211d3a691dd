#!/bin/bash
# tryseed.sh <seed id>...: applies each planted bug to /repo, runs the stable tests, its demo and its property's check.
cd "$(dirname "$0")/.." || exit 1
for id in "$@"; do
  d=$PWD/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  (cd /repo && bash "$d/demo.sh" >/tmp/demo.clean 2>&1); c=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  (cd /repo && bash "$d/demo.sh" >/tmp/demo.bug 2>&1); b=$?
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def passed(x):
    for k in ('stable','passed','pass','tests'):
        if isinstance(x,dict) and k in x: 
            v=x[k]; return set(v if isinstance(v,list) else [n for n,s in v.items() if str(s).startswith('pass')])
    return set()
print(len(passed(b)-passed(r)),'broken of',len(passed(b)))
P
)
  if [ -z "$NOCHECK" ]; then out=$(./run.sh $prop quick); rc=$?; else rc=-; fi
  git -C /repo checkout -- .
  echo "$id ($prop): demo clean=$c bug=$b; tests: $t; check exit=$rc"
  [ "$rc" = 1 ] && echo "$out" | grep -v '^C[0-9]' | cut -c1-300 | head -3
done
