#!/bin/bash
# seeds.sh [id...] : run the check of each planted bug's property on a scratch copy of /repo with the bug
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
export VERIF_TARGET=$(mktemp -d /tmp/seeds.XXXX)
for s; do
  p=${SEED_PROP:-$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")}
  rm -rf "$VERIF_TARGET"; cp -a /repo "$VERIF_TARGET"
  git -C "$VERIF_TARGET" apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  t=$(date +%s); out=$(./check.sh "$p" "${TIER:-quick}" 2>&1); rc=$?
  echo "$s $p rc=$rc $(($(date +%s)-t))s $(echo "$out" | grep -E 'violated|VIOLATION|ERROR' | head -1 | cut -c1-160)"
  [ $rc = 1 ] || [ -z "$SHOW" ] || echo "$out" | cut -c1-300 | head -12
done
rm -rf "$VERIF_TARGET"
