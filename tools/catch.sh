#!/bin/bash
# catch.sh ID...: apply seeded/ID/patch.diff to a scratch copy of /repo, and run
# the quick check of its property on that copy. Prints whether it is caught.
for id in "$@"; do
  D=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  S=$(mktemp -d /tmp/catchXXXXXX)
  cp -a /repo "$S/r"
  if git -C "$S/r" checkout -q -- . && git -C "$S/r" apply $D/patch.diff; then
    out=$(cd /verif; VERIF_REPO=$S/r VERIF_SEED=${VERIF_SEED:-1} ./check.sh $prop ${TIER:-quick} 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" <<< "$out"; then echo "$id: caught by $prop: $(grep -m1 '^  \[' <<< "$out" | cut -c1-150)"; else echo "$id: MISSED by $prop (exit $rc)"; fi
  else echo "$id: does not apply"; fi
  find "$S" -delete
done
