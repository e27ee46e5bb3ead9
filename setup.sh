#!/bin/bash
# Builds the simulator once, to show that it builds; each check builds again from /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh"
build_sim "full alloc noalloc" && build_rope "full noalloc"
