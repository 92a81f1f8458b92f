#!/bin/bash
# check.sh <property> [quick|thorough]
here=$(cd "$(dirname "$0")/.." && pwd)
"$here/tools/build.sh" || { echo "the simulator does not build against /repo" >&2; exit 2; }
if [ "$1" = C22 ]; then
    "$here/tools/build-embed.sh" || { echo "the embedded dictionaries do not build against /repo" >&2; exit 2; }
fi
export VERIF_ROOT=$here
exec "${LSIM_TARGET:-$here/target}/debug/lsim" check "$1" "${2:-quick}"
