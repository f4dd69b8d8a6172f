#!/bin/bash
# seedtest.sh ID [prop...]: confirm a planted bug in /repo (build, baseline tests, demo) and run the checks on it; always undone
ID=$1; shift
S=/verif/seeded/$ID
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "clean build failed"; exit 9; }
bash $S/demo.sh >/tmp/sd0.log 2>&1; d0=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 9; }
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "patched build failed"; tail -5 /tmp/sb.log; exit 9; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/st.json >/tmp/st.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/st.json'))
base=b['stable']
miss=[t for t in base if t not in r['passed']]
print("baseline tests failing:", miss)
P
fi
bash $S/demo.sh >/tmp/sd1.log 2>&1; d1=$?
echo "demo clean=$d0 patched=$d1"; tail -2 /tmp/sd1.log
props=${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for p in $props; do
  cmd=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$p'][0])")
  (cd /verif && timeout 900 $cmd >/tmp/sc.$p.log 2>&1); rc=$?
  echo "$ID $p rc=$rc $(grep -c VIOLATION /tmp/sc.$p.log)"; [ -n "$SHOW" ] && grep -A3 VIOLATION /tmp/sc.$p.log | cut -c1-400
done
