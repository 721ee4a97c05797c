#!/bin/bash
# tools/run1.sh SCENARIO PROPS BOUND [static] [extra...] : one scenario on the current tree
cd "$(dirname "$0")/.."
s=$1; p=$2; b=$3; v=${4:-dynamic}; shift; shift; shift; shift
python3 - "$v" <<'PY' > /tmp/.run1
import sys; sys.path.insert(0,"lib"); import build
e=build.build_sim(); print(e, build.build_lib(e, sys.argv[1]))
PY
read E L < /tmp/.run1
st=""; [ $v = static ] && st=--static
$E --lib $L $st --scenario $s ${p:+--only $p} --bound $b "$@"
