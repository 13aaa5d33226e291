#!/bin/bash
# run.sh CRATE PROPERTY: build the check from /repo's current tree and run it.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
cd "$here/ws" || exit 2
extra=()
[ "$1" = pstruct ] && extra=(-p partial_struct)
log=$(mktemp)
if ! cargo build --offline --locked -q -p "chk-$1" "${extra[@]}" >"$log" 2>&1; then
    grep -E '^error' -A12 "$log" | head -60
    rm -f "$log"
    echo "the check does not build"
    exit 2
fi
rm -f "$log"
exec "$here/target/debug/chk-$1" "$2"
