#!/bin/bash
here=$(cd "$(dirname "$0")/.." && pwd)
"$here/tools/build.sh" && "$here/tools/build-embed.sh"
