#!/bin/bash
# Development aid: tools/mut.sh FILE 'python-expr old' 'new' CHECK...  -- runs checks against a scratch copy of /repo with one textual change.
# usage: mut.sh <header> <old> <new> <check>...
set -e
f=$1; old=$2; new=$3; shift 3
D=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/include "$D/include"
python3 - "$D/include/mimic++/$f" "$old" "$new" <<'PY'
import sys
p,o,n=sys.argv[1:4]; s=open(p).read()
assert o in s, "pattern not found"
open(p,'w').write(s.replace(o,n,1))
PY
for c in "$@"; do MIMICPP_REPO=$D timeout 800 python3 /verif/check.py $c 2>&1 | grep -E '^(VIOLATION|held|error|  )' | head -4 | cut -c1-250; done
rm -rf "$D"
