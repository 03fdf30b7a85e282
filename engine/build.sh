#!/bin/bash
# builds the verifier into $1 (default /verif/build)
set -e
cd "$(dirname "$0")"
OUT=${1:-/verif/build}
mkdir -p "$OUT"
CXXF="-std=c++20 -O2 -g0 -w -fno-rtti"
LL="$(llvm-config-18 --cxxflags | tr ' ' '\n' | grep -E '^-(I|D)' | tr '\n' ' ')"
pids=()
for f in expr mem sat lin; do [ "$OUT/$f.o" -nt $f.cpp ] && [ "$OUT/$f.o" -nt expr.h ] && [ "$OUT/$f.o" -nt mem.h ] || { g++ $CXXF -c $f.cpp -o "$OUT/$f.o" & pids+=($!); }; done
[ "$OUT/solver.o" -nt solver.cpp ] && [ "$OUT/solver.o" -nt expr.h ] || { g++ -std=c++20 -O2 -w -c solver.cpp -o "$OUT/solver.o" & pids+=($!); }
{ [ "$OUT/exec.o" -nt exec.cpp ] && [ "$OUT/exec.o" -nt builtins.inc ] && [ "$OUT/exec.o" -nt lin.h ] && [ "$OUT/exec.o" -nt mem.h ] && [ "$OUT/exec.o" -nt expr.h ]; } || { g++ $CXXF -fexceptions $LL -c exec.cpp -o "$OUT/exec.o" & pids+=($!); }
for p in "${pids[@]}"; do wait $p; done
g++ -o "$OUT/vpexec" "$OUT"/{exec,expr,mem,solver,sat,lin}.o $(llvm-config-18 --ldflags) $(llvm-config-18 --libs core irreader support demangle 2>/dev/null) -lz3 -lminisat -lpthread
