#!/bin/bash
# Builds the demonstration beside this file against /repo's sources, in a scratch directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER RUSTFLAGS
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r "$here/support/." "$t" && cp "$here/main.rs" "$t/demo/src/main.rs" || exit 3
cd "$t" && export CARGO_TARGET_DIR=$t/target TMPDIR=$t
cargo build -q --offline ${DEMO_ALSO:-} -p demo 2> "$t/log" || { cat "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo" > "$t/out" 2>&1
rc=$?
tail -n 5 "$t/out"
exit $rc
