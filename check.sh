#!/bin/bash
# Runs the check of one property: check.sh <id>. VERIF_SEED and VERIF_TIER as in MANIFEST.json.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh"
id=$1
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} ND_ROOT=$here
builds="full noalloc"
export ND_SPARE=1 ND_NOALLOC_BIN=$here/sim/target/noalloc/debug/ndsim
if [ "$id" = C16 ]; then
    builds="full alloc noalloc"
    export ND_SPARE= ND_ALLOC_BIN=$here/sim/target/alloc/debug/ndsim
fi
case $id in C09|C20) builds=full ;; esac
if [ "$id" = C19 ]; then
    export ND_CATALOG=0 ND_NOALLOC_BIN=$here/sim/target/noalloc/debug/ndrope
    build_rope "$builds" || exit 2
    exec "$here/sim/target/full/debug/ndrope" check "$id"
fi
if [ "$VERIF_TIER" = thorough ]; then
    export ND_ACC=$here/sim/target/acc.$id
    : > "$ND_ACC"
    : > "$ND_ACC.meta"
    for k in 1 ${ND_CATALOGS:-101 102 103 104 105}; do
        export ND_CATALOG=$k
        ND_SKIP=
        build_sim "$builds" || exit 2
        "$here/sim/target/full/debug/ndsim" check "$id" || exit $?
    done
    exit 0
fi
build_sim "$builds" || exit 2
exec "$here/sim/target/full/debug/ndsim" check "$id"
