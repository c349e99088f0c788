#!/bin/bash
# Decide one property by exhaustive bounded exploration.
#
#   check.sh PROPERTY [quick|thorough] [--only FAMILY:INDEX]
#
# Exit 0: holds within the explored bounds.  Exit 1: violated (a line
# "VIOLATION property=... replay=..." is printed).  Anything else: the check
# itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd) || exit 2
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/target"
log="$here/target/build-$prop.log"
mkdir -p "$here/target" "$here/evidence" || exit 2

# Cargo judges by modification times; make sure the library is built from
# what is in the working tree now.
stale() {
    find "$here/target" -maxdepth 6 -type d -path '*/.fingerprint/*' \
        \( -name 'gift-*' -o -name 'mc-*' \) -prune -exec rm -rf {} + 2>/dev/null
}

build() {
    cargo build --manifest-path "$here/mc/Cargo.toml" --offline --locked \
        --profile "$1" >"$log" 2>&1 && return
    # the library may have come to need more or fewer of the packages
    if grep -q -- --locked "$log"; then
        cp "$here/mc/Cargo.lock" "$here/target/Cargo.lock.keep" || exit 2
        cargo build --manifest-path "$here/mc/Cargo.toml" --offline \
            --profile "$1" >"$log" 2>&1
        local ok=$?
        cp "$here/target/Cargo.lock.keep" "$here/mc/Cargo.lock" || exit 2
        [ $ok = 0 ] && return
    fi
    cat "$log" >&2
    echo "check.sh: cannot build the explorer" >&2
    exit 2
}

stale
if [ "$prop" = C23 ]; then
    cargo build --manifest-path /repo/Cargo.toml -p gift-bin \
        --target-dir "$here/target/cli" --offline --locked >"$log" 2>&1 || {
        cat "$log" >&2
        echo "check.sh: cannot build the gift command" >&2
        exit 2
    }
    export GIFT_BIN="$here/target/cli/debug/gift"
fi
if [ "$tier" = thorough ]; then
    # as shipped: no overflow checks, no debug assertions
    build ship
    "$here/target/ship/mc" "$prop" "$tier" --evidence "$here/evidence" \
        --profile ship "$@" || exit
fi
build release
exec "$here/target/release/mc" "$prop" "$tier" --evidence "$here/evidence" \
    --profile checked "$@"
