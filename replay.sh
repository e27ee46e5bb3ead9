#!/bin/bash
# Replays a violation: replay.sh <file>. Exit 1 if it reproduces, 0 if not.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh"
f=$1
export ND_ROOT=$here ND_CATALOG=$(awk '$1 == "catalog" { print $2 }' "$f")
builds=full
if [ "$(awk '$1 == "check" { print $2 }' "$f")" = C16 ]; then
    builds="full alloc noalloc"
    export ND_ALLOC_BIN=$here/sim/target/alloc/debug/ndsim ND_NOALLOC_BIN=$here/sim/target/noalloc/debug/ndsim
fi
b=$(awk '$1 == "build" { print $2 }' "$f")
[ -n "$b" ] && builds=$b
if [ "$(awk '$1 == "check" { print $2 }' "$f")" = C19 ]; then
    build_rope "$builds" || exit 2
    exec "$here/sim/target/${b:-full}/debug/ndrope" replay "$f"
fi
build_sim "$builds" || exit 2
exec "$here/sim/target/${b:-full}/debug/ndsim" replay "$f"
