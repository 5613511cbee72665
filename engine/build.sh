#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/.build/engine).
set -e
D="$(cd "$(dirname "$0")" && pwd)"
OUT="${1:-$D/../.build/engine}"
mkdir -p "$OUT"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CXX=clang++-18
F="-O2 -std=c++17 -ffp-contract=off -w"
$CXX $F -c "$D/expr.cpp" -o "$OUT/expr.o" & p1=$!
$CXX $F -I$Z/include -c "$D/solver.cpp" -o "$OUT/solver.o" & p2=$!
$CXX $F $(llvm-config-18 --cppflags) -fexceptions -c "$D/exec.cpp" -o "$OUT/exec.o" & p3=$!
wait $p1; wait $p2; wait $p3
$CXX "$OUT"/expr.o "$OUT"/solver.o "$OUT"/exec.o -o "$OUT/rpsym.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -Wl,-rpath,$Z/lib -lz3
mv "$OUT/rpsym.tmp" "$OUT/rpsym"
