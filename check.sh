#!/bin/bash
# check.sh ID: decides one property. VERIF_SEED (default 1) and VERIF_TIER (quick, thorough).
# HIRMON_ONLY=INDEX runs one case only.
cd "$(dirname "$0")" || exit 2
id=${1:?usage: check.sh ID}
seed=${VERIF_SEED:-1}
tier=${VERIF_TIER:-quick}
export RUST_BACKTRACE=0
if [ "$id" = C15 ]; then
  exec bash ext/check.sh "$seed" "$tier"
fi
bash build.sh || exit 4
extra=()
[ -n "$HIRMON_ONLY" ] && extra+=(--only "$HIRMON_ONLY")
[ -n "$HIRMON_SECONDS" ] && extra+=(--seconds "$HIRMON_SECONDS")
[ -n "$HIRMON_CASES" ] && extra+=(--cases "$HIRMON_CASES")
.build/harness/debug/hirmon check "$id" --root "$PWD" --repo "${HIRMON_REPO:-/repo}" --seed "$seed" --tier "$tier" \
  --server "$PWD/.build/server/debug/hyper-ir-lsp" "${extra[@]}"
