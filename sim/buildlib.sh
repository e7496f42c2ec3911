#!/bin/bash
# Compiles /repo's library (working tree) for the simulator: buildlib.sh OUTDIR
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1; repo=${KV_REPO:-/repo}
mkdir -p "$out"
CF="-std=gnu11 -O1 -g1 -fPIC -fsanitize-coverage=trace-pc -ftrivial-auto-var-init=pattern -fno-omit-frame-pointer -fno-strict-aliasing -U_FORTIFY_SOURCE -DKVTREE_SIM -w"
srcs="kvtree kvtree_util kvtree_io kvtree_helpers kvtree_err kvtree_mpi kvtree_mpi_io"
# a source file added next to these belongs to the library too
for f in "$repo"/src/*.c; do b=$(basename "$f" .c); case " $srcs kvtree_print tv_data_display " in *" $b "*) ;; *) srcs="$srcs $b";; esac; done
# uninitialised local variables hold a fixed pattern: negative numbers in one variant of the library, positive ones in the other
comp() { # variant source object flags...
  local v=$1 c=$2 o=$3; shift 3
  gcc $CF "$@" -I"$here/lib/cfg_$v" -I"$here/lib" -I"$repo/src" -S "$c" -o "$o.s"
  [ $v = flock ] || sed -i -e 's/\$-16843010\b/$16843009/' -e 's/\$-72340172838076674\b/$72340172838076673/' "$o.s"
  gcc -c "$o.s" -o "$o"; rm -f -- "$o.s"
}
pids=()
for v in flock fcntl; do
  mkdir -p "$out/$v"
  for s in $srcs; do
    comp $v "$repo/src/$s.c" "$out/$v/$s.o" & pids+=($!)
  done
  comp $v "$repo/src/kvtree_print.c" "$out/$v/kvtree_print.o" -Dmain=kvtree_print_main & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
for v in flock fcntl; do
  for o in "$out/$v"/*.o; do objcopy --redefine-syms="$here/lib/redefine.syms" "$o"; done
  gcc -shared -o "$out/libkv_$v.so" "$out/$v"/*.o -Wl,-z,now -Wl,-z,relro -Wl,-Bsymbolic -Wl,--allow-shlib-undefined -lz
done
# symbols that reach the real C library without a seam
nm -D --undefined-only "$out/libkv_flock.so" | awk '{print $2}' | sed 's/@.*//' | grep -v -x -f "$here/lib/pure.syms" > "$out/unknown.syms" || true
if [ -s "$out/unknown.syms" ]; then echo "note: symbols without a seam: $(tr '\n' ' ' < "$out/unknown.syms")" >&2; fi
