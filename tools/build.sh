#!/bin/bash
# Builds the simulator, with the real crates and the real command line program from
# /repo's working tree, into /verif/target. Quiet unless it fails.
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=${LSIM_TARGET:-$here/target} RUSTC_WRAPPER=$here/tools/rustc-wrap.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS DOCS_RS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
out=$(cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" --bins 2>&1)
rc=$?
if [ $rc -ne 0 ]; then
    printf '%s\n' "$out" | tail -60 >&2
fi
exit $rc
