#!/bin/bash
# tools/seed.sh ID [full|demo|check] [PROP...] : try a planted bug in scratch copies of /repo and /verif (own mount namespace).
#   demo: build, demo without and with the patch.  check: the property's check with the patch.  full: both, and the test suite.
id=$1; mode=${2:-full}; shift; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/seed.$id.$$; mkdir -p $S
trap 'rm -rf "/tmp/seed.$id.$$"' EXIT
cp -a /repo $S/repo; mkdir $S/verif; cp -a $V/check.py $V/lib $V/sim $V/cfg $V/known-findings.txt $S/verif/ ; mkdir -p $S/verif/build; cp -a $V/build/sim-* $S/verif/build/ 2>/dev/null
cp -a $V/real $S/verif/
cp -a $V/seeded/$id $S/demo
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
cat > $S/run.sh <<'R'
set -u
mount --bind $S/repo /repo; mount --bind $S/verif /verif
cd /repo; git checkout -q -- . 
if [ $mode != check ]; then
  bash /opt/vp/build.sh >$S/b0.log 2>&1 || { echo "BASE BUILD FAILED"; exit 1; }
  timeout 300 bash $S/demo/demo.sh >$S/d0.log 2>&1; r=$?; echo "demo on the unchanged tree: $r"; [ $r = 0 ] || tail -5 $S/d0.log
fi
git apply $S/demo/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ $mode != check ]; then
  bash /opt/vp/build.sh >$S/b1.log 2>&1 || { echo "BUILD FAILED"; tail $S/b1.log; exit 1; }
  timeout 300 bash $S/demo/demo.sh >$S/d1.log 2>&1; r=$?; echo "demo with the patch: $r"; tail -3 $S/d1.log
fi
if [ $mode = full ]; then
  bash /opt/vp/test.sh $S/t.json >$S/t.log 2>&1
  python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('$S/t.json'))['passed'];print('tests broken:',sorted(set(b)-set(t)))"
fi
if [ $mode != demo ]; then
  cd /verif; for p in $props; do VERIF_TIER=${TIER:-quick} python3 check.py $p > $S/c.log 2>&1; r=$?; echo "check $p: exit $r"; grep -h -B1 '^VIOLATION' $S/c.log; grep -h "VIOLATION-IN" $S/c.log | head -2;  [ $r = 0 -o $r = 1 ] || tail -5 $S/c.log; done
fi
R
export S mode props
echo "== $id"
unshare -m bash $S/run.sh
