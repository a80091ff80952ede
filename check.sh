#!/bin/bash
# check.sh ID: builds what property ID needs from /repo's working tree, then searches.
# Exit 0: held on everything explored. 1: VIOLATION line printed. 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
source "$here/tools/build.sh"
id=${1:?usage: check.sh ID}
case $id in
    C1[3-9]|C20|C25|C26|C27) build_harness && build_huff && build_shim ;;
    *) build_harness ;;
esac || { echo "UNDECIDED property=$id: the build failed"; exit 2; }
exec 9>&-
"$PBT" run "$id"
code=$?
[ $code = 0 ] || [ $code = 1 ] || code=2
exit $code
