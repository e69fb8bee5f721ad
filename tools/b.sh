#!/bin/bash
# b.sh ID: build, short error list, run
d=$(cd "$(dirname "$0")/.." && pwd); o=$(python3 $d/tools/build.py $1 2>&1); if echo "$o" | grep -q "error"; then echo "$o" | grep "error" | cut -c1-260 | head -${N:-8}; exit 1; fi; shift_id=$1; shift; timeout ${T:-400} python3 $d/tools/check.py $shift_id "$@" 2>&1 | tail -${L:-12} | cut -c1-1500
