#!/bin/bash
# Builds every check once, so that the checks only rebuild what changed in /repo.
cd "$(dirname "$0")/ws" || exit 2
cargo build --offline --locked -q -p partial_struct $(for d in chk/*/; do echo -p "chk-$(basename "$d")"; done) 2>&1 | grep -E '^error' -A12
exit "${PIPESTATUS[0]}"
