#!/bin/bash
# tools/seed.sh PATCHDIR [nocheck|checkonly] [PROP...]: tries a planted bug (or a refactoring) in a private copy of /repo,
# bind-mounted over /repo in a mount namespace of its own, so several can run at once and /repo itself is never touched.
D=$(realpath "$1"); MODE=${2:-all}; shift; shift
PROPS="$*"
[ -z "$PROPS" ] && [ -f "$D/meta.json" ] && PROPS=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
S=$(mktemp -d /tmp/seed.XXXXXX)
export D MODE PROPS S
unshare -m bash -c '
  cp -a /repo $S/repo && cp -a /verif $S/verif && rm -rf $S/verif/evidence
  mount --bind $S/repo /repo; mount --bind $S/verif /verif
  cd /repo; git checkout -q -- .
  N=$(basename $D)
  run_demo() { [ -f $D/demo.sh ] || return 0; (cd /repo; timeout 300 bash $D/demo.sh >$S/demo.log 2>&1); }
  if [ $MODE != checkonly ]; then
    bash /opt/vp/build.sh >$S/b.log 2>&1
    run_demo; r=$?; [ $r = 0 ] || { echo "$N: BAD demo fails on unchanged tree ($r)"; tail -5 $S/demo.log; }
  fi
  git apply $D/patch.diff || { echo "$N: BAD patch does not apply"; exit 1; }
  if [ $MODE != checkonly ]; then
    bash /opt/vp/build.sh >$S/b.log 2>&1 || { echo "$N: BAD does not build"; grep -m3 error $S/b.log; exit 1; }
    bash /opt/vp/test.sh $S/o.json >/dev/null 2>&1
    python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("$S/o.json"))
k=[x for x in b if isinstance(b[x],list)][0]
m=sorted(set(b[k])-set(o.get("passed",[])))
print("$N: tests", "OK" if not m else "BAD "+str(m[:4]))
P
    if [ -f $D/demo.sh ]; then run_demo; r=$?; [ $r != 0 ] && echo "$N: demo OK ($r)" || echo "$N: BAD demo passes with the patch"; fi
  fi
  if [ $MODE != nocheck ]; then
    cd /verif
    for p in $PROPS; do
      t0=$(date +%s)
      VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p quick >$S/c.log 2>$S/c.err; r=$?
      echo "$N: check $p exit $r in $(( $(date +%s) - t0 ))s: $(grep -m1 VIOLATION $S/c.log) | $(tail -1 $S/c.log | cut -c1-150)"
      [ $r -gt 1 ] && tail -3 $S/c.err
      [ -n "$SHOW" ] && cat $S/c.log && head -c 3000 /verif/evidence/$p.replay.txt
    done
  fi
'
rm -rf "$S"
