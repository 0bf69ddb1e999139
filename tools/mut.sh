#!/bin/bash
# mut.sh PROPERTY FILE 's/..../..../'  - run a check against a scratch copy of the headers with one sed edit
set -e; cd "$(dirname "$0")"
d=$(mktemp -d /tmp/mutXXXXXX)
mkdir -p $d/libs/mathlib; cp -a /repo/libs/mathlib/include $d/libs/mathlib/
f=$d/libs/mathlib/include/$2
cp $f $d/before
sed -i "$3" $f
if cmp -s $f $d/before; then echo "NO CHANGE"; fi
diff $d/before $f | head -8 || true
cd .. && VP_REPO=$d python3-vt engine/check.py $1 ${4:+--only $4} | cut -c1-300 | tail -12
rm -rf "$d"
