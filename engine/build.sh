#!/bin/bash
# builds the symbolic executor: $1 = output binary
set -e
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-/verif/build/sx}
mkdir -p "$(dirname "$OUT")"
T=$(mktemp -d)
CF="-std=c++17 -O2 -w -fexceptions -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS"
clang++ $CF -c "$D/expr.cpp" -o "$T/expr.o" &
clang++ $CF -c "$D/sx.cpp" -o "$T/sx.o" &
wait %1 && wait %2
clang++ -o "$OUT.tmp$$" "$T/sx.o" "$T/expr.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$OUT.tmp$$" "$OUT"
rm -r "$T"
