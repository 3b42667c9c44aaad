#!/bin/bash
# Rebuilds the tool under test from /repo's working tree, and the native helpers, into /verif/target.
set -e
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${RTMON_REPO:-/repo}"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
# development profile: debug assertions and overflow checks stay on
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=true CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true
export CARGO_TARGET_DIR="${RTMON_TARGET:-$VERIF/target}"
mkdir -p "$CARGO_TARGET_DIR"
# cargo goes by mtime; dropping the crate's fingerprints makes it look again
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/reqtrace-*
cargo build --offline --quiet --manifest-path "$REPO/Cargo.toml" --bin reqtrace
for f in rtlaunch; do
    [ "$CARGO_TARGET_DIR/$f" -nt "$VERIF/native/$f.c" ] || gcc -O2 -Wall -o "$CARGO_TARGET_DIR/$f" "$VERIF/native/$f.c"
done
if [ -e "$VERIF/native/rtshim.c" ]; then
    [ "$CARGO_TARGET_DIR/rtshim.so" -nt "$VERIF/native/rtshim.c" ] ||
        gcc -O2 -Wall -shared -fPIC -o "$CARGO_TARGET_DIR/rtshim.so" "$VERIF/native/rtshim.c" -ldl
fi
