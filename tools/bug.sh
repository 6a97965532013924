#!/bin/bash
# bug.sh ID [PROPERTY...]: confirms a planted bug (clean demo, patch, build, tests, demo) and runs the checks of its property against it.
. /opt/vp/env.sh
d=/verif/seeded/$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1
cp -r "$d" /tmp/bugdemo.$$; rm -f /tmp/bugdemo.$$/patch.diff /tmp/bugdemo.$$/meta.json
bash /tmp/bugdemo.$$/demo.sh > /tmp/bugdemo.clean 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 /tmp/bugdemo.clean; }
git apply "$d/patch.diff" || { rm -rf /tmp/bugdemo.$$; exit 2; }
trap 'git -C /repo checkout -q -- .; rm -rf /tmp/bugdemo.'$$ EXIT
bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/bug.build; exit 2; }
bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/bug.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print("tests:", len(d['passed']), "passed, failed:", d['failed'][:5])
P
bash /tmp/bugdemo.$$/demo.sh > /tmp/bugdemo.out 2>&1 && echo "demo patched: NOT NOTICED" || { echo "demo patched: fails as it should"; tail -3 /tmp/bugdemo.out; }
for p in ${@:-$prop}; do
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} /verif/check.sh $p > /tmp/bug.check 2>&1; rc=$?
  echo "check $p: exit $rc after $(( $(date +%s) - s )) s: $(grep -c VIOLATION /tmp/bug.check) violation(s): $(head -c 300 /tmp/bug.check | head -2)"
done
