#!/bin/bash
# Builds the simulator from /repo's current sources. Usage: build.sh OUTDIR
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
repo=${REPO:-/repo}
mkdir -p "$out"
SAN="-fsanitize=address,undefined -fno-sanitize=signed-integer-overflow,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"
cflags="-g1 -O1 $SAN -w ${SIM_CFLAGS:-}"
wrap="-Wl,--wrap=fopen -Wl,--wrap=malloc"
jobs=()
pids=()
for f in "$repo"/src/nk*.c; do
    clang -std=gnu99 $cflags ${NK_CFLAGS:-} -I"$repo/src" -c "$f" -o "$out/nk_$(basename "${f%.c}").o" & pids+=($!)
done
for f in "$here"/*.cpp; do
    o="$out/$(basename "${f%.cpp}").o"
    clang++ -std=c++17 $cflags -fno-sanitize=enum -I"$repo/src" -I"$here" -c "$f" -o "$o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || { echo "compile failed" >&2; exit 1; }; done
objs=("$out"/*.o)
clang++ $SAN $wrap -o "$out/sim" "${objs[@]}" ${SIM_LDFLAGS:-}
