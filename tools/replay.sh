#!/bin/bash
# replay.sh <replay file> [--trace]
here=$(cd "$(dirname "$0")/.." && pwd)
"$here/tools/build.sh" || { echo "the simulator does not build against /repo" >&2; exit 2; }
if grep -q '"property": *"C22"' "$1"; then
    "$here/tools/build-embed.sh" || { echo "the embedded dictionaries do not build against /repo" >&2; exit 2; }
fi
export VERIF_ROOT=$here
exec "${LSIM_TARGET:-$here/target}/debug/lsim" replay "$@"
