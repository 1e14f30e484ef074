#!/bin/bash
# Re-execute a replay file: exit 1 and the VIOLATION line if the violation happens again, 0 if not.
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" >&2 || exit 2
if grep -q '^property C16' "$1"; then
    list="$here/sim/target/configs.txt"
    "$here/configs.sh" > "$list" || exit 2
    exec "$here/sim/target/release/vsim" replay "$1" "$list"
fi
exec "$here/sim/target/release/vsim" replay "$1"
