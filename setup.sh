#!/bin/bash
# Builds everything once, from committed files, offline.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
source "$here/tools/build.sh"
build_harness && build_huff && build_shim
