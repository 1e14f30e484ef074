#!/bin/bash
# Build the simulator against the working tree of /repo (offline).
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$here/sim/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# cargo decides by modification times; decide by contents
now=$(cd /repo && find Cargo.toml src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
stamp="$here/sim/target/vecmat.stamp"
if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
    rm -f "$stamp"
    cargo clean --release --offline -p vecmat -p vsim >/dev/null 2>&1
fi
out=$(cargo build --release --offline --locked 2>&1) || { echo "$out" | grep -E '^error' -A12 | head -60; exit 2; }
echo "$now" > "$stamp"
