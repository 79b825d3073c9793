#!/bin/bash
# tryseed.sh ID...: confirms a planted bug (demo, build, tests) and whether the property's check catches it; leaves /repo clean
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  (cd /repo && bash $s/demo.sh >/tmp/seed-$id.log 2>&1); d0=$?
  git -C /repo apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/seed-$id.build 2>&1; then b=ok; else b=FAIL; fi
  (cd /repo && bash $s/demo.sh >>/tmp/seed-$id.log 2>&1); d1=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seed-$id.json >/dev/null 2>&1
    t=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/seed-$id.json'))['passed']
print('tests-ok' if set(b)<=set(r) else 'TESTS FAIL %s'%sorted(set(b)-set(r))[:3])
PY
)
  fi
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash /verif/run.sh $p >/tmp/seed-$id.check 2>&1; c=$?
  v=$(grep -c "^VIOLATION property=$p " /tmp/seed-$id.check)
  git -C /repo checkout -q -- .
  echo "$id: demo $d0 -> $d1, build $b, $t, check $p exit $c ($v violations) $([ $d0 = 0 ] && [ $d1 != 0 ] && [ $b = ok ] && echo COUNTS) $([ $c = 1 ] && [ $v -gt 0 ] && echo CAUGHT || echo MISSED)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
