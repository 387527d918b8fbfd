#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/engine/build).
set -e
cd "$(dirname "$0")"; B=${1:-build}; mkdir -p $B
FL="-O2 -std=c++17 -fexceptions $(llvm-config --cxxflags | sed 's/-std=c++17//; s/-fno-exceptions//')"
pids=()
for f in expr solver decode exec builtins main; do
  if [ ! -f $B/$f.o ] || [ $f.cpp -nt $B/$f.o ] || [ expr.h -nt $B/$f.o ] || [ solver.h -nt $B/$f.o ] || [ state.h -nt $B/$f.o ] || [ engine.h -nt $B/$f.o ]; then g++ $FL -c $f.cpp -o $B/$f.o & pids+=($!); fi
done
for p in "${pids[@]}"; do wait $p; done
if [ ! -f $B/lpsym ] || [ -n "$(find $B -name '*.o' -newer $B/lpsym)" ]; then g++ $B/*.o -o $B/lpsym.tmp $(llvm-config --ldflags) -lLLVM-18 -lz3 -lpthread && mv $B/lpsym.tmp $B/lpsym; fi
