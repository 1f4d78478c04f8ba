#!/bin/bash
# seedval.sh ID...: confirm planted bugs in scratch copies (patched tree builds, passes the
# stable tests, demo fails with and passes without the patch).  SKIPTESTS=1 leaves the tests out.
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; w=$(mktemp -d /tmp/seedval.XXXXXX); cp -a /repo $w/repo; cp -a $V/seeded/$id $w/seed; rm -f $w/seed/*.diff $w/seed/meta.json
  cat > $w/run.sh <<X
mount --bind $w/repo /repo; cd /repo
bash /opt/vp/build.sh >$w/b0.log 2>&1 || echo "$id base build fails"
timeout 300 bash $w/seed/demo.sh >$w/d0.log 2>&1; echo "$id demo on unchanged: \$?"
git apply $V/seeded/$id/patch.diff || { echo "$id does not apply"; exit; }
bash /opt/vp/build.sh >$w/b1.log 2>&1 || { echo "$id patched build fails"; tail -5 $w/b1.log; exit; }
timeout 300 bash $w/seed/demo.sh >$w/d1.log 2>&1; echo "$id demo on patched: \$?"; tail -3 $w/d1.log
if [ -z "$SKIPTESTS" ]; then bash /opt/vp/test.sh $w/out.json >/dev/null 2>&1
python3 - <<P
import json
o=json.load(open("$w/out.json"));b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
print("$id tests missing:",[t for t in b if t not in o["passed"]])
P
fi
X
  unshare -Urmi bash $w/run.sh
  rm -rf $w
}
for i in "$@"; do one $i & done; wait
