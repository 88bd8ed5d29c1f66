#!/bin/bash
# Builds the repository's code with demo.rs as a test module in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$t"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= RUST_BACKTRACE=0
python3 "$here/ws.py" "$repo" "$t/ws" @PLACE@ "$here/demo.rs" || exit 2
# third-party crates' build output, if there is some; cargo rebuilds what does not fit
mkdir -p "$t/target/debug" && [ -d /opt/vp/ws/target/debug/deps ] && (cd /opt/vp/ws/target/debug && tar cf - --exclude='*cdn_*' --exclude='cdn-*' deps build .fingerprint | tar xf - -C "$t/target/debug")
cd "$t/ws" && timeout 280 cargo test -q --offline -p @CRATE@ --lib vdemo 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
