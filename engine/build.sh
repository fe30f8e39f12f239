#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build/ipsym)
set -e
cd "$(dirname "$0")"
OUT=${1:-../build/ipsym}; mkdir -p "$(dirname "$OUT")"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
ZL=$Z3/lib
F="-std=c++17 -O2 -g0 -fexceptions -I/usr/lib/llvm-18/include -I$Z3/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
CXX=${CXX_ENGINE:-g++}
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
P=()
for f in expr alg solver main; do $CXX $F -c $f.cpp -o $T/$f.o & P+=($!); done
for p in "${P[@]}"; do wait $p; done
$CXX $T/*.o -o "$OUT.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL/libz3.so -Wl,-rpath,$ZL -lgmpxx -lgmp -lpthread
mv "$OUT.tmp" "$OUT"
