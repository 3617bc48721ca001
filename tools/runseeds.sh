#!/bin/bash
# runseeds.sh [id...]: applies each planted bug to /repo, runs its property's quick check, undoes it (not part of any check)
cd "$(dirname "$0")/.." || exit 2
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  t=$(date +%s)
  timeout 900 ./check.sh $p quick >/tmp/seed-$id.log 2>&1; r=$?
  git -C /repo checkout -- .
  echo "$id $p exit=$r $(($(date +%s)-t))s $(grep -m1 VIOLATION /tmp/seed-$id.log | cut -c1-150)"
done
