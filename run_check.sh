#!/bin/bash
# usage: run_check.sh ID [--replay FILE] [--cases N]; reads VERIF_SEED and VERIF_TIER
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V"
bash "$V/build_all.sh" || { echo "cannot build"; exit 2; }
if [ "${1:-}" = C28 ]; then
    exec node "$V/extension/check.cjs" "${@:2}" --bin "$V/build/server/debug/hyper-ir-lsp" --out "$V/evidence"
fi
exec "$V/build/harness/release/hirprop" "$@" --bin "$V/build/server/debug/hyper-ir-lsp" --out "$V/evidence"
