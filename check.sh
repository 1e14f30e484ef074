#!/bin/bash
# Decide one property: check.sh <PROP> [quick|thorough]
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (the crate does not build).
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" >&2 || exit 2
vsim="$here/sim/target/release/vsim"
if [ "$prop" = C16 ]; then
    list="$here/sim/target/configs.txt"
    "$here/configs.sh" > "$list" || exit 2
    exec "$vsim" configs "$list" "$tier" "${VERIF_SEED:-1}" "$here"
fi
exec "$vsim" check "$prop" "$tier" "${VERIF_SEED:-1}" "$here"
