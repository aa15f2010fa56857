#!/bin/bash
# bug.sh <id> [demo|check|all]: applies seeded/<id>/patch.diff to /repo, runs build, tests, demo and the check of its property, undoes it.
id=$1; what=${2:-all}; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "$what" != check ]; then
  (cd /repo && bash $d/demo.sh >/tmp/bug.$id.good 2>&1); echo "$id demo unchanged: $? (want 0)"
fi
git -C /repo apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
if [ "$what" != check ]; then
  bash /opt/vp/build.sh >/tmp/bug.$id.build 2>&1 && bash /opt/vp/test.sh /tmp/bug.$id.json >/tmp/bug.$id.test 2>&1
  python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(f'/tmp/bug.{sys.argv[1]}.json'))
ok=r["passed"] if "passed" in r else r; want=b["stable"]
names=lambda x: set(x if isinstance(x,list) else x.keys())
print(sys.argv[1],'tests missing:',sorted(names(want)-names(ok))[:5])
P
  (cd /repo && bash $d/demo.sh >/tmp/bug.$id.bad 2>&1); echo "$id demo patched: $? (want 1)"; tail -2 /tmp/bug.$id.bad
fi
if [ "$what" != demo ]; then
  VERIF_EVIDENCE=/tmp/bug.ev VERIF_REPLAYS=/tmp/bug.replays /verif/check.sh $prop quick > /tmp/bug.$id.check 2>&1; echo "$id check $prop: exit $? (want 1)"; grep -m1 VIOLATION /tmp/bug.$id.check
fi
