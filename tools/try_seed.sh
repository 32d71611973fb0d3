#!/bin/bash
# try_seed.sh ID...: confirms planted changes: clean demo passes, patched builds, stable tests pass, demo fails, check reports
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/tmp/b.log 2>&1
  (cd /repo && bash /verif/seeded/$id/demo.sh >/tmp/demo0.log 2>&1); d0=$?
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/t.json >/tmp/b.log 2>&1; 
  bad=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def passed(x):
    if isinstance(x,dict):
        if "stable" in x: return set(x["stable"])
        for k in('passed','pass','stable','tests'):
            if k in x and isinstance(x[k],list): return set(map(str,x[k]))
    return set(map(str,x)) if isinstance(x,list) else set()
m=passed(b)-passed(t); print(len(m),list(m)[:2])
P
)
  (cd /repo && bash /verif/seeded/$id/demo.sh >/tmp/demo1.log 2>&1); d1=$?
  out=$(VERIF_SEED=1 python3-vt check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id [$p]: demo clean=$d0 patched=$d1 lost tests=$bad check rc=$rc $(echo "$out" | grep -c 'failing input') concrete, $(echo "$out"|grep -c 'obligation not accepted') obligations"
  [ $rc = 1 ] || echo "   MISSED"
  echo "$out" | head -3 | cut -c1-300
done
bash /opt/vp/build.sh >/tmp/b.log 2>&1
