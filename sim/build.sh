#!/bin/bash
# Builds the simulator into /verif/build unless it is up to date.
set -e
here=$(cd "$(dirname "$0")" && pwd); root=$(dirname "$here"); b=$root/build
mkdir -p "$b/obj"
exec 9> "$b/lock"; flock 9
stamp=$(cat "$here"/*.cpp "$here"/*.h "$here"/lib/mpi.h "$here/build.sh" | sha256sum | cut -d' ' -f1)
[ -x "$b/runner" ] && [ "$(cat "$b/stamp" 2>/dev/null)" = "$stamp" ] && exit 0
CX="-std=c++17 -O2 -g1 -Wall -Wextra -Wno-unused-parameter -Wno-misleading-indentation"
pids=(); objs=()
for f in "$here"/*.cpp; do
  o=$b/obj/$(basename "$f" .cpp).o; objs+=("$o"); s=$(cat "$f" "$here"/*.h "$here"/lib/mpi.h "$here/build.sh" | sha256sum)
  [ -f "$o" ] && [ "$(cat "$o.stamp" 2>/dev/null)" = "$s" ] && continue
  ( g++ $CX -I"$here" -c "$f" -o "$o" && echo "$s" > "$o.stamp" ) & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
g++ -rdynamic -o "$b/runner.new" "${objs[@]}" -ldl -lz
mv -f "$b/runner.new" "$b/runner"
echo "$stamp" > "$b/stamp"
