#!/bin/bash
# run.sh check ID | replay FILE | one ID:INDEX   (rebuilds the library from /repo's working tree)
set -u
here=$(cd "$(dirname "$0")" && pwd); root=$(dirname "$here")
bash "$here/build.sh" || { echo "cannot build the simulator" >&2; exit 2; }
mkdir -p "$root/build/tmp"
lib=$(mktemp -d "$root/build/tmp/lib.XXXXXX") || exit 2
trap 'rm -rf -- "$lib"' EXIT
bash "$here/buildlib.sh" "$lib" || { echo "cannot build the library" >&2; exit 2; }
"$root/build/runner" "$1" "$2" "$lib" "$root"
