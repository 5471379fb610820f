#!/bin/bash
# dump.sh OUT.json — compile /repo's current tree with the MIR driver and dump its monomorphic MIR.
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${SA_REPO:-/repo}
T=$(mktemp -d /tmp/sa-dump.XXXXXX)
trap 'rm -rf "$T"' EXIT
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
export SA_OUT=$T/out.json
export RUSTC_WORKSPACE_WRAPPER=$HERE/target/release/driver
export RUSTFLAGS="-Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on -Awarnings"
unset CARGO_BUILD_TARGET CARGO_TARGET_DIR
cargo +nightly check --offline --quiet --lib --manifest-path "$REPO/Cargo.toml" --target-dir "$T/t" >"$T/log" 2>&1 || { cat "$T/log" >&2; exit 3; }
test -s "$SA_OUT"
mv "$SA_OUT" "$OUT"
