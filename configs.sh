#!/bin/bash
# Build the simulator once for every other feature configuration of the crate (the distinct ones: `std` brings
# `approx` with it, so that {std} = {std, approx} and {std, rand} = all).  Prints one line per configuration:
#   config <name> ok <path> | config <name> unbuildable <message> | config <name> links-std <path>
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
now=$(cd /repo && find Cargo.toml src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
one() {
    name=$1
    export CARGO_TARGET_DIR="$here/sim/target/cfg/$name"
    mkdir -p "$CARGO_TARGET_DIR"
    stamp="$CARGO_TARGET_DIR/vecmat.stamp"
    if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
        rm -f "$stamp"
        cargo clean --release --offline -p vecmat -p vsim >/dev/null 2>&1
    fi
    features=${name/+/,}
    [ "$name" = none ] && features=
    log="$CARGO_TARGET_DIR/build.log"
    if ! cargo build --release --offline --locked --no-default-features --features "$features" --message-format json-render-diagnostics >"$log" 2>"$log.err"; then
        if grep -q 'could not compile `vecmat`' "$log.err"; then
            echo "config $name unbuildable $(grep -m1 -E '^error' "$log.err")"
            return 0
        fi
        grep -E '^error' -A12 "$log.err" | head -40 >&2
        return 2
    fi
    # what the crate without the std feature was linked with
    verdict=ok
    if [ "$name" = none ] || [ "$name" = approx ]; then
        lib=$(grep -o '"[^"]*/libvecmat-[^"]*\.rlib"' "$log" | head -1 | tr -d '"')
        deps=$(RUSTC_BOOTSTRAP=1 rustc -Zls=root "$lib" 2>/dev/null)
        echo "$deps" | grep -qE '^[0-9]+ core-' || { echo "no dependencies in '$lib'" >&2; return 2; }
        echo "$deps" | grep -qE '^[0-9]+ std-' && verdict=links-std
    fi
    echo "config $name $verdict $CARGO_TARGET_DIR/release/vsim"
    echo "$now" > "$stamp"
}
pids=()
for name in ${1:-none rand approx rand+approx std}; do
    one "$name" &
    pids+=($!)
done
code=0
for p in "${pids[@]}"; do
    wait "$p" || code=2
done
exit $code
