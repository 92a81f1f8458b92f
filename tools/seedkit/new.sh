#!/bin/bash
# new.sh ID PROPERTY NEEDS BREAKS < main.rs
# Keeps the change now in the scratch clone /tmp/w as seeded/ID, once the demonstration
# passes without it and fails with it and the existing tests pass with it.
here=$(cd "$(dirname "$0")" && pwd)
id=$1 prop=$2
d=$here/../../seeded/$id
mkdir -p "$d"
cat >"$d/main.rs"
cp "$here"/{kit.rs,shim.c,Cargo.toml.in,Cargo.lock,demo.sh} "$d/"
git -C /tmp/w diff >"$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
python3 - "$d/meta.json" "$prop" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
export DEMO_TARGET=/tmp/wt-demo
git -C /tmp/w checkout -q -- .
(cd /tmp/w && bash "$d/demo.sh") >/tmp/demo.0 2>&1; a=$?
git -C /tmp/w apply "$d/patch.diff" || exit 1
(cd /tmp/w && bash "$d/demo.sh") >/tmp/demo.1 2>&1; b=$?
echo "demo: without $a, with $b"
[ $a = 0 ] || tail -15 /tmp/demo.0
[ $b = 0 ] && tail -4 /tmp/demo.1; grep -m1 -A2 panicked /tmp/demo.1
if [ -z "$NOTEST" ]; then
    (cd /tmp/w && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu DOCS_RS=1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/wt-test bash -c 'find /tmp/wt-test/debug/build -type f -name dummy_dict.csv -path "*/out/*" -printf "%h\0" 2>/dev/null | xargs -0 -r rm -rf -- ; cargo test --workspace --features ipadic,ipadic-neologd,unidic,ko-dic,cc-cedict,filter --no-fail-fast --offline -- --test-threads 8' >/tmp/demo.t 2>&1)
    grep -E "^test .* \.\.\. (ok|FAILED)" /tmp/demo.t | sed 's/ - should panic//' | awk '{print $2,$4}' | sort >/tmp/demo.tt
    echo "tests: $(grep -c ' ok$' /tmp/demo.tt) ok, $(grep -c FAILED /tmp/demo.tt) failed"; grep -E "^error(\[|: could)" /tmp/demo.t | head -3
fi
git -C /tmp/w checkout -q -- .
