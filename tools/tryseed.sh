#!/bin/bash
# tryseed.sh ID [PID...]: in private copies of /repo and /verif: builds, runs the demonstration, applies the planted bug,
# builds, tests, runs the demonstration and the checks (default: that of its property)
if [ "$1" != --inner ]; then exec unshare -m bash "$0" --inner "$@"; fi
shift; id=$1; shift; t=$(mktemp -d /tmp/ts_XXXX); mkdir $t/repo $t/verif $t/o; cp -a /repo/. $t/repo; V=$(cd "$(dirname "$0")/.." && pwd); cp -a $V/. $t/verif; rm -rf -- "$t/verif/.git"
mount --bind $t/repo /repo && mount --bind $t/verif /verif || exit 2
s=/verif/seeded/$id; cd /repo
bash /opt/vp/build.sh >$t/o/build 2>&1 || { echo "$id BUILD FAILS before"; exit 1; }
bash $s/demo.sh >$t/o/demo0 2>&1; echo "$id demo before: $? $(tail -1 $t/o/demo0 | cut -c1-100)"
git apply $s/patch.diff || exit 1
bash /opt/vp/build.sh >$t/o/build 2>&1 || { echo "$id BUILD FAILS with the change"; tail -20 $t/o/build; exit 1; }
bash /opt/vp/test.sh $t/o/t.json >$t/o/test 2>&1
python3 - $id $t/o/t.json <<'P'
import json, sys
r=json.load(open(sys.argv[2])); b=json.load(open('/opt/vp/BASELINE.json')); P=set(r['passed']); B=set(b.get('passed') or b.get('stable'))
print(sys.argv[1], len(P), 'passed; missing from baseline:', sorted(B-P)[:10])
P
bash $s/demo.sh >$t/o/demo1 2>&1; echo "$id demo with the change: $? $(tail -1 $t/o/demo1 | cut -c1-150)"
[ "$#" -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /verif; for p in "$@"; do [ "$p" = none ] && continue; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $p quick >$t/o/chk 2>&1; echo "$id check $p: $? $(tail -1 $t/o/chk)"; grep -A1 VIOLATION $t/o/chk | cut -c1-300 | head -2; done
cd /; umount /verif /repo; rm -rf -- "$t"
