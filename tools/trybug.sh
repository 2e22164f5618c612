#!/bin/bash
# trybug.sh ID...: for each planted change: tests still pass? demo 0 before / nonzero after? does the check of its property (or $CHECKS) catch it?
cd /repo || exit 2
[ -z "$(git status --short --untracked-files=no)" ] || { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  bash $D/demo.sh >/tmp/tb_demo0 2>&1; a=$?
  git apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/tb_t.json >/tmp/tb_test 2>&1
  t=$(python3 - <<'F'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/tb_t.json'))['passed'])
print('tests-ok' if b<=p else 'TESTS-FAIL:'+','.join(sorted(b-p)))
F
)
  bash $D/demo.sh >/tmp/tb_demo1 2>&1; b=$?
  r=""
  for c in ${CHECKS:-$P}; do
    (cd /verif && timeout 900 python3 checks/runner.py $c --tier quick) >/tmp/tb_$id.$c.log 2>&1; x=$?
    grep -q "^VIOLATION property=$c " /tmp/tb_$id.$c.log && v=CAUGHT || v=missed
    r="$r $c:exit$x:$v:$(grep -c ^violated /tmp/tb_$id.$c.log)"
  done
  git checkout -q -- .
  echo "$id $t demo $a->$b $r"
done
bash /opt/vp/build.sh >/dev/null 2>&1
