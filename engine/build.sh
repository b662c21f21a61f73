#!/bin/bash
# builds the engine into $1 (a directory)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=$1; mkdir -p "$O"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
F="-std=c++17 -O2 -w -I/usr/lib/llvm-18/include -I$Z/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
clang++ $F -c "$D/expr.cpp" -o "$O/expr.o" & P1=$!
clang++ $F -c "$D/solver.cpp" -o "$O/solver.o" & P2=$!
clang++ $F -c "$D/exec.cpp" -o "$O/exec.o" & P3=$!
wait $P1; wait $P2; wait $P3
clang++ "$O/expr.o" "$O/solver.o" "$O/exec.o" -o "$O/irsym.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -Wl,-rpath,$Z/lib -lz3 -lpthread
mv "$O/irsym.tmp" "$O/irsym"
