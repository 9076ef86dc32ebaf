#!/bin/bash
# Builds the engine (once, from setup_cmd).
set -e
cd "$(dirname "$0")"
O=${1:-../build}
mkdir -p $O
L=/usr/lib/llvm-18
FL="-O2 -std=c++17 -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -fno-rtti -w"
pids=
for f in expr engine; do
  if [ ! -f $O/$f.o ] || [ $f.cpp -nt $O/$f.o ] || [ expr.hpp -nt $O/$f.o ]; then g++ $FL -c $f.cpp -o $O/$f.o & pids="$pids $!"; fi
done
for p in $pids; do wait $p; done
g++ $O/expr.o $O/engine.o -o $O/fxsym -L$L/lib -Wl,-rpath,$L/lib -lLLVM-18 -lz3
