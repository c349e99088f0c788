#!/bin/bash
# Build what the checks use, so that they start faster.  Every check builds
# what it needs by itself; nothing here is required.
set -u
here=$(cd "$(dirname "$0")" && pwd) || exit 2
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target"
cargo build --manifest-path "$here/mc/Cargo.toml" --offline --locked --release || exit 2
cargo build --manifest-path /repo/Cargo.toml -p gift-bin \
    --target-dir "$here/target/cli" --offline --locked || exit 2
