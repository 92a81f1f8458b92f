#!/bin/sh
# RUSTC_WRAPPER: adds to lindera's own crates callbacks at code edges (sanitizer
# coverage) and in place of atomic operations (thread sanitizer's pass, without its
# runtime). They are the simulator's preemption points and reach counters. Nothing
# else is compiled differently. With LSIM_TARGET_ONLY what runs at compile time (build
# scripts and what they use, compiled without --target) is left alone.
prev= ours= target=
for a in "$@"; do
    case "$prev$a" in
    --crate-namelindera*) ours=1 ;;
    esac
    case "$a" in
    --target | --target=*) target=1 ;;
    esac
    prev=$a
done
if [ -n "$ours" ] && [ -n "$target" -o -z "$LSIM_TARGET_ONLY" ]; then
    exec "$@" -C "passes=sancov-module function(tsan)" -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-prune-blocks=0 \
        -C llvm-args=-tsan-instrument-func-entry-exit=0
fi
exec "$@"
