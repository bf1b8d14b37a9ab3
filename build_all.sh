#!/bin/bash
# Builds the server from /repo's working tree and the harness. All output goes to /verif/build.
set -eu
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${REPO:-/repo}"
export CARGO_NET_OFFLINE=true
T="$V/build/server"
mkdir -p "$T"
exec 9>"$V/build/lock"
flock 9
# cargo decides by modification times; rebuild for sure when the contents changed
H="$(cd "$REPO" && find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)"
if [ ! -f "$T/sources.sha" ] || [ "$(cat "$T/sources.sha")" != "$H" ]; then
    rm -rf "$T"/debug/.fingerprint/hyper-ir-lsp-*
    rm -f "$T/sources.sha"
fi
(cd "$REPO" && RUSTUP_TOOLCHAIN=1.74.1 CARGO_PROFILE_DEV_DEBUG=0 \
    cargo build --offline --locked --quiet --bin hyper-ir-lsp --target-dir "$T" \
    --config profile.dev.package.hyper-ir-lsp.opt-level=1) >"$V/build/server.log" 2>&1 || { cat "$V/build/server.log"; exit 2; }
echo "$H" >"$T/sources.sha"
(cd "$V/harness" && env -u RUSTUP_TOOLCHAIN cargo build --offline --locked --release --quiet --target-dir "$V/build/harness") \
    >"$V/build/harness.log" 2>&1 || { cat "$V/build/harness.log"; exit 2; }
