#!/bin/bash
# tools/runs.sh PROPS "scenario bound" ... : several scenarios in both builds
p=$1; shift
for s in "$@"; do set -- $s; for v in ${V:-dynamic static}; do "$(dirname "$0")"/run1.sh $1 $p $2 $v ${3:+--param $3} 2>&1 | tail -4; done; done
