#!/bin/bash
# seedtest.sh ID [PID...] : in a private mount namespace where /repo is a scratch copy,
# confirm a planted bug (clean demo passes, patched builds, tests pass, demo fails), then run the checks.
id=$1; shift
S=/verif/seeded/$id
W=/tmp/seedwt-$id
if [ -z "$INNER" ]; then
  mkdir -p $W && cp -a /repo/. $W/
  INNER=1 unshare -Urm bash "$0" "$id" "$@"; rc=$?
  [ -n "$W" ] && rm -rf "/tmp/seedwt-$id"
  exit $rc
fi
mount --bind $W /repo; cd /repo; git config --global --add safe.directory /repo 2>/dev/null
D=$(mktemp -d); cp $S/demo* $D/ ; for f in $S/*; do case $f in *.diff|*meta.json) ;; *) cp -r $f $D/;; esac; done
if [ -z "$NOTEST" ]; then
bash $D/demo.sh >$D/log0 2>&1 || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 $D/log0; exit 1; }
fi
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $D/t.json >$D/log1 2>&1
python3 - $D/t.json <<'P' || { echo "$id: TESTS FAIL"; exit 1; }
import json,sys
t=json.load(open(sys.argv[1]));b=json.load(open("/opt/vp/BASELINE.json"))
base=b.get("stable") or b.get("passed") or b
p=set(t["passed"]);base=[x for x in (base if isinstance(base,list) else base.get("stable_pass",[]))]
miss=[x for x in base if x not in p]
print(len(p),"passed; missing",miss[:5], "failed", t["failed"][:5]); sys.exit(1 if miss or t["failed"] or not p else 0)
P
bash $D/demo.sh >$D/log2 2>&1; rc=$?
[ $rc -ne 0 ] && echo "$id: demo fails with patch (good)" || { echo "$id: DEMO PASSES WITH PATCH"; exit 1; }
tail -2 $D/log2
fi
for p in "$@"; do (cd /verif; bin/check $p ${TIER:-quick} >$D/c 2>&1; rc=$?; echo "$id: $p rc=$rc"; grep -h VIOLATION $D/c | head -3); done
