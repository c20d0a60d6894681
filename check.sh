#!/bin/bash
# check.sh ID [TIER]: decide one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 3
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
REPO="${H3_REPO:-/repo}"
bash ./setup.sh || { echo "cannot build the analysis"; exit 3; }
W="$(mktemp -d /tmp/h3check.XXXXXX)" || exit 3
trap 'rm -rf "$W"' EXIT
bash common/extract.sh "$PWD/spec" h3spec "$W/spec.json" 2>"$W/err" || { cat "$W/err"; echo "cannot extract the reference definitions"; exit 3; }
bash common/extract.sh "$REPO" h3_rs "$W/code.json" 2>"$W/err" || { tail -40 "$W/err"; echo "cannot extract the program under analysis"; exit 3; }
mkdir -p evidence
.cache/engine/release/h3engine "$ID" --code "$W/code.json" --spec "$W/spec.json" --tier "$TIER" --evidence "$PWD/evidence" --known "$PWD/known-findings.txt"
