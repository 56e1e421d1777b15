#!/bin/bash
# builds the demonstration from the sources in the current directory (the repository) and runs it
here=$(cd "$(dirname "$0")" && pwd)
. "$here/demo.conf"      # SRCS, DEFS, optionally CXX
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
cp -r include src "$tmp"/ || exit 99
rm -f "$tmp/include/defines.hpp"
for d in $DEFS; do echo "#define ${d%%=*} ${d#*=}"; done > "$tmp/include/defines.hpp"
files="$here/demo.cpp"
for s in $SRCS; do files="$files $tmp/src/$s"; done
${CXX:-g++} -std=c++17 -O1 -w -fno-access-control -I "$here" -I "$tmp/include" -I "$tmp/src" $files -o "$tmp/demo" 2> "$tmp/log" || { head -30 "$tmp/log"; exit 98; }
cd "$tmp" && timeout 120 ./demo
