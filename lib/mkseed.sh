#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS < demo.c : records the uncommitted change in /repo as a planted bug, then
# confirms it (build, demo fails; revert, build, demo passes). Stable tests: confirmed by vcheck --bug.
set -u
id=$1 d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo "no change"; exit 1; }
[ -t 0 ] || cat > $d/demo.c; cp /verif/lib/demo_template.sh $d/demo.sh; chmod +x $d/demo.sh
python3 - "$2" "$3" "$4" > $d/meta.json <<'P'
import json,sys; print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/seed_build.log; }
(cd /repo; bash $d/demo.sh > /tmp/seed_demo.log 2>&1; r=$?; tail -3 /tmp/seed_demo.log; [ $r -ne 0 -a $r -ne 2 ] && echo "demo with bug: $r (ok)" || echo "DEMO PASSES OR DOES NOT BUILD WITH BUG")
if [ -n "${CHECK-1}" ]; then (cd /verif; timeout 900 python3 lib/vfrun.py $2 > /tmp/seed_check.log 2>&1; echo "check rc=$?"; grep -E "VIOLATION|failed|broken|UNDEC" /tmp/seed_check.log | cut -c1-200); grep -m3 -A1 ^body /verif/replays/$2.txt 2>/dev/null; fi
if [ -n "${TESTS:-}" ]; then bash /opt/vp/test.sh /tmp/seed_out.json > /tmp/seed_t.log 2>&1; tail -1 /tmp/seed_t.log; python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json')); o=set(json.load(open('/tmp/seed_out.json'))['passed'])
b=b.get('passed') or b.get('stable') or b
print('baseline tests now failing:', [x for x in b if x not in o])"; fi
git -C /repo checkout -- . ; bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1
(cd /repo; bash $d/demo.sh > /tmp/seed_demo.log 2>&1; r=$?; [ $r -eq 0 ] && echo "demo clean: ok" || { echo "DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/seed_demo.log; })
