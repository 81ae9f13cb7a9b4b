#!/bin/bash
# usage: replay.sh <replay file>: runs one recorded scenario on /repo's working tree and prints its
# trace; exit 1 and a VIOLATION line if the property is violated, 0 if it holds.
f="$(realpath "$1")"
cd "$(dirname "$0")" || exit 2
./build.sh >/dev/null 2>&1 || { echo "the tree under /repo does not build" >&2; exit 2; }
exec sim/target/release/dsim replay "$f" --trace
