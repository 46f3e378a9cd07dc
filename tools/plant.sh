#!/bin/bash
V=$(cd "$(dirname "$0")/.." && pwd); export V
# plant.sh ID...: confirms planted bugs in a private copy of /repo (build, tests, demo, checks)
for id in "$@"; do
  w=$(mktemp -d /tmp/plant.XXXX)
  cp -a /repo "$w/repo"
  cp -a $V/seeded/$id "$w/seed"
  rm -f "$w"/seed/*.diff "$w/seed/meta.json"
  prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" $V/seeded/$id/meta.json)
  unshare -mn bash -c '
    ip link set lo up
    w=$1 id=$2 prop=$3
    mount --bind $w/repo /repo; cd /repo
    bash /opt/vp/build.sh >$w/b0 2>&1 || echo "$id: base build fails"
    bash $w/seed/demo.sh >$w/d0 2>&1; d0=$?
    git apply $V/seeded/$id/patch.diff || echo "$id: patch fails"
    if [ "$NOTEST" ]; then bash /opt/vp/build.sh >$w/b1 2>&1 || echo "$id: build fails"; miss=untested; else
    bash /opt/vp/test.sh $w/o.json >$w/t 2>&1
    miss=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); o=json.load(open(\"'$w'/o.json\".replace(chr(39),\"\")))
print(sorted(set(b[\"stable\"])-set(o[\"passed\"])))"); fi
    bash $w/seed/demo.sh >$w/d1 2>&1; d1=$?
    python3 $V/run.py $prop >$w/c 2>&1; c=$?
    v=$(grep -c "^VIOLATION property=$prop" $w/c)
    echo "$id prop=$prop demo0=$d0 demo1=$d1 testsmissing=$miss check=$c violation=$v :: $(grep -m1 SUMMARY $w/c)"
    [ $d0 = 0 ] || cat $w/d0
  ' _ $w $id $prop
  rm -rf "$w"
done
