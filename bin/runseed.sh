#!/bin/bash
# runseed.sh ID...: applies each planted change to a scratch copy of /repo's headers and runs its property's check on it
R=/tmp/seed_r.$$
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  mkdir -p $R; rsync -a --delete --exclude _build --exclude _b /repo/ $R/; git -C $R checkout -q -- .
  git -C $R apply /verif/seeded/$id/patch.diff || continue
  for q in ${PROP:-$p}; do
  t0=$SECONDS
  out=$(cd /verif && VERIF_REPO=$R VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt engine/check.py $q 2>&1); rc=$?
  echo "$id $q exit $rc $((SECONDS-t0))s: $(echo "$out" | grep -c VIOLATION) violations; $(echo "$out" | grep 'violated:' | head -2 | tr '\n' ';') $(echo "$out" | grep -c UNCONF) unconfirmed"
  done
done
rm -rf "$R"
