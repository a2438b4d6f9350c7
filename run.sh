#!/bin/bash
# run.sh <property> [quick|thorough]: decide one property from /repo's current sources.
here="$(cd "$(dirname "$0")" && pwd)"
tier="${2:-${VERIF_TIER:-quick}}"
bin="$here/bin/zkstat"
if [ ! -x "$bin" ] || [ -n "$(find "$here/zkstat" -newer "$bin" \( -name '*.go' -o -name 'go.*' \) -print -quit)" ]; then
  bash "$here/setup.sh" >&2 || exit 2
fi
cd "$here"
exec "$bin" -repo "${ZK_REPO:-/repo}" -prop "$1" -tier "$tier" -out "${ZK_OUT:-$here/evidence}"
