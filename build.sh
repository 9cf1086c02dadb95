#!/bin/sh
# Builds the simulator, and with it /repo's working tree, in both profiles.
cd "$(dirname "$0")/sim" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS
cargo build --offline --locked --quiet --release 2>"$PWD/build.log" && cargo build --offline --locked --quiet --profile chk 2>>"$PWD/build.log" || {
    tail -40 "$PWD/build.log" >&2
    echo "build failed" >&2
    exit 2
}
