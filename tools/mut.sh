#!/bin/bash
# mut.sh PID FILE 'sed expr' [tier]: runs a check against a scratch copy of /repo with a one-line mutation
pid=$1; f=$2; ex=$3; d=$(mktemp -d /tmp/mut_XXXX); cp -a /repo/src $d/; 
f=${f#src/}; [ -f $d/src/$f ] || exit 4
sed -i -E "$ex" $d/src/$f; if diff -q $d/src/$f /repo/src/$f >/dev/null; then echo "NO CHANGE: $ex"; rm -r "$d"; exit 3; fi
diff /repo/src/$f $d/src/$f | head -4
cd "$(dirname "$0")/.." && VP_REPO=$d ./check $pid ${4:-quick} 2>&1 | cut -c1-250 | tail -${5:-4}; rm -r "$d"
