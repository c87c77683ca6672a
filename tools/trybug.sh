#!/bin/bash
# trybug.sh ID [PROP...]: applies seeded/ID to /repo, runs build, stable tests, demo and the quick checks given, and undoes it.
ID=$1; shift; B=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then (cd /repo && bash $B/demo.sh >/tmp/demo.$ID.clean 2>&1); echo "$ID demo clean: $?"; fi
git -C /repo apply $B/patch.diff || exit 8
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$ID BUILD FAILED"; grep -E "^error" -A5 /tmp/b.log|head -20; exit 7; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
bp=set(b['stable'])
op=set(o['passed'])
print('tests missing:', sorted(bp-op)[:6], len(bp-op),'of',len(bp))
PY
fi
if [ -z "$NODEMO" ]; then (cd /repo && bash $B/demo.sh >/tmp/demo.$ID.bug 2>&1); echo "$ID demo patched: $? $(tail -1 /tmp/demo.$ID.bug)"; fi
cd /verif
for P in "$@"; do s=$(date +%s); bash tools/check.sh $P quick >/tmp/chk.$ID.$P 2>&1; echo "$ID check $P: exit $? $(grep -m1 VIOLATION /tmp/chk.$ID.$P) [$(( $(date +%s)-s ))s]"; done
