#!/bin/bash
# builds demo.cpp with the sources of the repository in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$PWD" || exit 2
repo=$PWD
objs=()
pids=()
for s in "$repo"/src/*.cxx "$here"/demo.cpp; do
    o=$work/$(basename "$s").o
    g++ -std=c++17 -O1 -g -w -DASIO_STANDALONE -DASIO_HAS_STD_CHRONO -I"$repo/include" -I"$here" -c "$s" -o "$o" & pids+=($!)
    objs+=("$o")
done
for p in "${pids[@]}"; do wait "$p" || exit 3; done
g++ "${objs[@]}" -o "$work/demo" -lpthread || exit 3
cd "$work" || exit 3
timeout -k 5 200 "$work/demo"
rc=$?
[ $rc -eq 0 ] || { echo "demo failed: $rc"; exit 1; }
