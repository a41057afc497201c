#!/bin/bash
# seedcheck.sh ID...: confirms planted changes in a scratch copy of /repo: the patch applies, the tests build
# and the stable ones pass, and the demo exits 0 without and nonzero with the patch.
W=/tmp/seed_w
B=$W/_b
mkdir -p $W
rsync -a --delete --exclude _build --exclude _b --exclude python/setup.py /repo/ $W/
cd $W && git checkout -q -- . && git clean -fdq frackit
[ -f $B/build.ninja ] || cmake -S $W -B $B -G Ninja -Wno-dev -DCONFIG_FOR_DOCKER=ON -DFRACKIT_BUILD_DOC=OFF -DFRACKIT_ENABLE_PYTHONBINDINGS=OFF -DPYTHON_EXECUTABLE=/usr/bin/python3.12 >/tmp/seed_w.cmake 2>&1
STABLE=$(python3 -c "
import json; print('^('+'|'.join(x.split('::')[1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable'])+')\$')")
for id in "$@"; do
  S=/verif/seeded/$id
  bash $S/demo.sh >/tmp/seed_demo.out 2>&1; r0=$?
  if ! git apply $S/patch.diff; then echo "$id: patch does not apply"; continue; fi
  timeout 300 bash $S/demo.sh >/tmp/seed_demo1.out 2>&1; r1=$?
  if [ -n "$SEED_QUICK" ]; then git checkout -q -- .; echo "$id: demo base $r0, patched $r1"; continue; fi
  cmake --build $B -j 8 -t build_tests -- -k 0 >/tmp/seed_build.$id 2>&1
  ctest --test-dir $B -j 8 --timeout 180 -R "$STABLE" >/tmp/seed_test.$id 2>&1; rt=$?
  echo "$id: demo base $r0, patched $r1, tests exit $rt  $(grep 'tests passed' /tmp/seed_test.$id) $(grep -A5 'FAILED:' /tmp/seed_test.$id | grep -i 'failed)' | head -5)"
  git checkout -q -- .
done
