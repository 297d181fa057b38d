#!/bin/bash
# tools/tryseed.sh ID [CHECK...]: confirms a planted bug (builds, passes the tests, demo fails with and passes
# without it) and runs the checks of its property (or those named) against it. Leaves /repo as it was.
id=$1; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
git -C /repo apply --check "$d/patch.diff" || exit 2
bash /opt/vp/build.sh > /tmp/ts.log 2>&1 || { echo "base build fails"; exit 2; }
tmp=$(mktemp -d); cp "$d"/* "$tmp"/; rm -f "$tmp"/*.diff "$tmp"/meta.json
(cd /repo && timeout 300 bash "$tmp/demo.sh" > /tmp/demo0.log 2>&1); r0=$?
git -C /repo apply "$d/patch.diff"
if bash /opt/vp/build.sh > /tmp/ts.log 2>&1; then b=ok; else b=FAILS; tail -5 /tmp/ts.log; fi
bash /opt/vp/test.sh /tmp/ts.json > /tmp/tst.log 2>&1
t=$(python3 - <<'P'
import json
a=json.load(open('/tmp/ts.json')); b=json.load(open('/opt/vp/BASELINE.json'))
b=b['stable']
m=[x for x in b if x not in set(a['passed'])]
print('pass' if not m else 'FAIL %d %s'%(len(m),m[:3]))
P
)
(cd /repo && timeout 300 bash "$tmp/demo.sh" > /tmp/demo1.log 2>&1); r1=$?
echo "$id: build $b, tests $t, demo $r0 -> $r1"
rm -rf "$tmp"
for p in ${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
  s=$(date +%s)
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $p 2>&1); rc=$?
  echo "  $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -v VIOLATION | grep -v '^C' | head -2 | cut -c1-200 | tr '\n' ' ')"
done
