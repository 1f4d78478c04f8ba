#!/bin/bash
# seedcheck.sh ID...: run the check of the planted bug's property on a patched scratch clone
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; w=$(mktemp -d /tmp/seedchk.XXXXXX); git clone -q --shared /repo $w/repo; git -C $w/repo apply $V/seeded/$id/patch.diff
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  WDB_REPO=$w/repo WDB_EVDIR=$w/ev python3 $V/run.py $p > $w/out; echo "== $id $p rc=$?"; grep -v KNOWN-FINDING $w/out | cut -c1-300 | head -4
  rm -rf $w
}
for i in "$@"; do one $i & while [ $(jobs -r | wc -l) -ge 4 ]; do sleep 0.2; done; done; wait
