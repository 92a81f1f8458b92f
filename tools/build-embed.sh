#!/bin/bash
# Builds the simulator with embedded dictionaries, plain and compressed, and the crates'
# build scripts over the simulated system. Needs what build.sh makes. Their archives are
# generated (there is no network) and reach the real build scripts through harness/stubs/ureq.
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=$here/tools/rustc-wrap.sh LSIM_TARGET_ONLY=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS DOCS_RS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
base=${LSIM_TARGET:-$here/target}
triple=x86_64-unknown-linux-gnu
net=$base/net
"$base/debug/lsim" archives "$net.new" || exit 1
stale=
if ! diff -rq "$net" "$net.new" >/dev/null 2>&1; then
    stale=1
    rm -rf "${net:?}"
    mv "$net.new" "$net"
else
    rm -rf "${net:?}.new"
fi
export LSIM_NET=$net
one() { # directory, features
    export CARGO_TARGET_DIR=$base/$1
    if [ -n "$stale" ]; then
        rm -rf "$CARGO_TARGET_DIR/$triple/debug/build"
    fi
    out=$(cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" --target $triple --features "$2" --bins 2>&1)
    rc=$?
    [ $rc -eq 0 ] || printf '%s\n' "$out" | tail -60 >&2
    return $rc
}
one embed embed & a=$!
one embedz embed,compress & b=$!
wait $a; ra=$?
wait $b; rb=$?
exit $((ra | rb))
