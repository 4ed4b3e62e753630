#!/bin/bash
# check.sh <property> quick|thorough [further arguments of the check]: rebuild what the check needs, run it.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
id="$1"; tier="$2"; shift 2
bin="$(echo "$id" | tr A-Z a-z)"
build() { # workspace, arguments
    local log; log="$(mktemp)"
    if ! (cd "$MC_VERIF/harness/$1" && shift && cargo build --offline --locked -q "$@") >"$log" 2>&1; then
        grep -E '^error' -A12 "$log" | head -60; rm -f "$log"
        echo "check.sh: the build failed"; exit 3
    fi
    rm -f "$log"
}
touch_changed
build plain --bin "$bin"
if grep -qs "needs: invader-mc" "$MC_VERIF/harness/plain/src/bin/$bin.rs"; then build shadow; fi
cd "$MC_VERIF"
export VERIF_TIER="$tier"
exec "$CARGO_TARGET_DIR/debug/$bin" "$tier" "$@"
