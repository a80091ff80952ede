#!/bin/bash
# replay.sh FILE: runs one saved case again on /repo's working tree (exit 1: still broken).
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
source "$here/tools/build.sh"
build_harness && build_huff && build_shim || exit 2
exec 9>&-
exec "$PBT" replay "${1:?usage: replay.sh FILE}"
