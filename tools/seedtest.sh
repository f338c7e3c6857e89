#!/bin/bash
# seedtest.sh ID [notests|nocheck]: try one planted bug in a private copy of /repo (bind-mounted over /repo)
id=$1; mode=$2; s=/verif/seeded/$id; w=$(mktemp -d /tmp/seedw.XXXX); prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cp -a /repo "$w/repo"; cp -a "$s" "$w/demo"; rm -f "$w"/demo/patch.diff "$w"/demo/meta.json
unshare -m bash -c '
 w=$0; s=$1; mode=$2; prop=$3; id=$4
 mount --bind $w/repo /repo; cd /repo
 if [ "$mode" != nodemo ]; then bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $w/demo/demo.sh >$w/d0 2>&1; echo "$id demo unchanged: $? $(tail -1 $w/d0)"; fi
 git apply $s/patch.diff || exit 1
 bash /opt/vp/build.sh >$w/b 2>&1 || { echo "$id BUILD FAILED"; tail -5 $w/b; exit 1; }
 if [ "$mode" != nodemo ]; then timeout 300 bash $w/demo/demo.sh >$w/d1 2>&1; echo "$id demo patched: $? $(tail -1 $w/d1)"; fi
 if [ "$mode" != notests ]; then bash /opt/vp/test.sh $w/t.json >/dev/null 2>&1; python3 - $w/t.json $id <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open(sys.argv[1]))
st=b.get("stable") or b.get("passed") or b
p=set(t["passed"]); bad=[x for x in st if x not in p]
print(sys.argv[2],"stable tests lost:",len(bad),bad[:3])
P
 fi
 if [ "$mode" != nocheck ]; then t0=$(date +%s); cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 vc/check.py $prop >$w/c 2>&1; echo "$id check exit $? $(( $(date +%s)-t0 ))s: $(tail -1 $w/c)"; grep -m2 "^FAIL" $w/c; fi
' "$w" "$s" "$mode" "$prop" "$id"
rm -rf "$w"
