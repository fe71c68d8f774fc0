#!/bin/bash
# build.sh OUTDIR: builds OUTDIR/vsym from the committed sources
set -e
cd "$(dirname "$0")"; out="$1"; mkdir -p "$out"
pids=()
clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c decode.cpp -o "$out/decode.o" & pids+=($!)
for f in expr solver exec builtins main; do g++ -std=c++17 -O2 -w -c $f.cpp -o "$out/$f.o" & pids+=($!); done
for p in "${pids[@]}"; do wait $p; done
g++ "$out"/{decode,expr,solver,exec,builtins,main}.o -o "$out/vsym" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
