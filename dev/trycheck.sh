#!/bin/bash
# development aid: dev/trycheck.sh SEED CHECK...  runs checks against a scratch copy of the sources with a planted bug
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
W=$(mktemp -d /tmp/trysrc.XXXXXX)
cp -a /repo/src /repo/external $W/
if [ -f "$V/seeded/$id/patch.diff" ]; then P=$V/seeded/$id/patch.diff; else P=$id; fi
[ "$id" = none ] || (cd $W && patch -s -p1 < "$P") || { echo "patch fails"; exit 3; }
for c in "$@"; do
  SA_REPO=$W SA_EVIDENCE=$W/ev python3-vt $V/check.py $c > $W/out.txt 2>&1; r=$?
  echo "$(basename $id) $c exit=$r $(grep -c VIOLATION $W/out.txt)"
  grep -v "^  undecided" $W/out.txt | head -${LINES_SHOWN:-8}
done
rm -rf "$W"
