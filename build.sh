#!/bin/bash
# Builds the checks against /repo's current working tree. Offline; nothing is written in /repo.
set -u
repo=${VPH_REPO:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
# overrides target-cpu=native of /repo/.cargo/config.toml
export RUSTFLAGS="-C target-cpu=x86-64"
export CARGO_TARGET_DIR=$here/target
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.vph-lock"
flock 9
cd "$here/harness" || exit 3
# cargo compares times; a tree laid out afresh can have old ones, so compare contents here
now=$( (cd "$repo" && find src Cargo.toml build.rs .cargo -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum; cd "$here/harness" && find . -type f | LC_ALL=C sort | xargs -d '\n' sha256sum) | sha256sum)
stamp=$CARGO_TARGET_DIR/.vph-stamp
if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
    rm -f "$stamp"
    cargo clean --offline -p blockchaintree -p vph >/dev/null 2>&1
fi
cargo build --offline --quiet >"$CARGO_TARGET_DIR/.vph-log" 2>&1 || { cat "$CARGO_TARGET_DIR/.vph-log"; echo "ERROR the harness does not build against /repo"; exit 3; }
so=$CARGO_TARGET_DIR/vph-shim.so
if [ ! -e "$so" ] || [ shim.c -nt "$so" ] || [ ! -e "$stamp" ]; then
    gcc -shared -fPIC -O1 -o "$so.new" shim.c -ldl -lpthread && mv "$so.new" "$so" || { echo "ERROR the shim does not build"; exit 3; }
fi
echo "$now" >"$stamp"
