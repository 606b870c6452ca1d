#!/bin/bash
# development aid: validates planted bugs in a scratch copy of /repo (never in /repo itself)
#   dev/seedtest.sh ID...   applies seeded/ID/patch.diff, builds, runs the stable tests, runs demo.sh with and without
W=${SEEDREPO:-/tmp/seedrepo}
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p $W
rsync -rlpc --delete --exclude _build --exclude .git /repo/ $W/ 
mkdir -p $W/.vp
sed "s#/repo#$W#g" /opt/vp/build.sh > $W/.vp/build.sh
cat > $W/.vp/test.sh <<T
R=$W/_build/reports; rm -rf \$R; mkdir -p \$R
python3 /opt/vp/run_gtest.py $W/_build/splinelib/test/SplineLibTests \$R
python3 /opt/vp/run_gtest.py $W/_build/iga/test/CSigaTests \$R
python3 /opt/vp/results.py $W/.vp/out.json "junit:\$R/*.xml"
T
for id in "$@"; do
  S=$V/seeded/$id
  rsync -rlpc --delete --exclude _build --exclude .git --exclude .vp /repo/ $W/
  D=$(mktemp -d /tmp/seeddemo.XXXXXX); cp $S/* $D/; rm -f $D/patch.diff $D/meta.json
  (cd $W && timeout 300 bash $D/demo.sh >$W/.vp/demo0.log 2>&1); r0=$?
  (cd $W && git apply --unsafe-paths --directory=$W $S/patch.diff 2>/dev/null || patch -s -p1 < $S/patch.diff) || { echo "$id: PATCH FAILS"; continue; }
  bash $W/.vp/build.sh > $W/.vp/build.log 2>&1 || { echo "$id: BUILD FAILS"; tail -5 $W/.vp/build.log; continue; }
  bash $W/.vp/test.sh > $W/.vp/test.log 2>&1
  t=$(tail -1 $W/.vp/test.log)
  (cd $W && timeout 300 bash $D/demo.sh >$W/.vp/demo1.log 2>&1); r1=$?
  echo "$id: demo clean=$r0 patched=$r1 tests: $t"
  python3 -c "import json;f=json.load(open('$W/.vp/out.json'))['failed'];f and print('   fails:',*f[:8])"
  [ $r0 = 0 ] || tail -3 $W/.vp/demo0.log
  rm -rf "$D"
done
