#!/bin/bash
# usage: build.sh OUT_BINARY
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=$1; W=$OUT.d; mkdir -p "$W"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z/lib/libz3.so ] && [ -f $Z/include/z3.h ]; then INC="-I$Z/include"; LIB="$Z/lib/libz3.so -Wl,-rpath,$Z/lib"; else INC=""; LIB="-lz3"; fi
pids=()
for f in expr ll exec; do g++ -std=c++17 -O2 -w $INC -c "$D/$f.cpp" -o "$W/$f.o" & pids+=($!); done
for p in "${pids[@]}"; do wait $p; done
g++ "$W/expr.o" "$W/ll.o" "$W/exec.o" $LIB -o "$OUT"
