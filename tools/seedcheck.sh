#!/bin/bash
# seedcheck.sh [id...]: run the property's check (or CHECKS="C01 C02 ..") on a scratch copy with each planted change.
cd "$(dirname "$0")/.."
ids="${*:-$(ls seeded)}"
one() {
  id=$1; t=$(mktemp -d); cp -a /repo "$t/repo"
  if ! git -C "$t/repo" apply "$PWD/seeded/$id/patch.diff"; then echo "$id DOES-NOT-APPLY"; rm -rf "$t"; return; fi
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  for c in ${CHECKS:-$prop}; do
    out=$(ZK_REPO=$t/repo ZK_OUT=$t/ev timeout 850 bash run.sh $c quick 2>&1); rc=$?
    r=$(sed -n 2,3p "$t/ev/$c.violation.txt" 2>/dev/null | tr '\n' ' ' | cut -c1-220)
    case $rc in 0) v=MISSED;; 1) v=caught;; *) v=ERROR;; esac
    [ -n "$QUIETOK" -a $rc = 0 ] || echo "$id $c(own=$prop) $v :: $r"
  done
  rm -rf "$t"
}
export -f one
printf '%s\n' $ids | xargs -P 4 -I{} bash -c 'one {}'
