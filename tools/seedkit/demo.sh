#!/bin/bash
# Builds a small program against the repository in the working directory and runs it
# in a scratch directory. Exit 0: the property was kept; 1: it was broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
s=$(mktemp -d) || exit 2
trap 'rm -rf "$s"' EXIT
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=${DEMO_TARGET:-$s/target}
unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS DOCS_RS LD_PRELOAD SHIM
mkdir -p "$s/demo/src" "$s/work"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" >"$s/demo/Cargo.toml"
cp "$here/Cargo.lock" "$s/demo/Cargo.lock"
cp "$here/main.rs" "$here/kit.rs" "$s/demo/src/"
gcc -shared -fPIC -O1 -o "$s/shim.so" "$here/shim.c" -ldl || exit 2
cargo build --offline -q --bins --manifest-path "$s/demo/Cargo.toml" || exit 2
cd "$s/work" || exit 2
DEMO_SHIM=$s/shim.so timeout 120 "$CARGO_TARGET_DIR/debug/demo"
