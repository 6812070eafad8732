#!/bin/bash
# build the symbolic executor: build.sh OUT
set -e
cd "$(dirname "$0")"
F="-O2 -g0 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-14/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
g++ $F -c engine.cpp -o $T/engine.o & p1=$!
g++ $F -c expr.cpp -o $T/expr.o & p2=$!
g++ $F -std=c++14 -c ../harness/astload.cpp -o $T/astload.o & p3=$!
wait $p1; wait $p2; wait $p3
g++ $T/engine.o $T/expr.o $T/astload.o -o "$1.tmp" -rdynamic -Wl,--no-as-needed /usr/lib/llvm-14/lib/libLLVM-14.so /usr/lib/llvm-14/lib/libclang-cpp.so.14 -lz3 -ldl -lpthread -Wl,-rpath,/usr/lib/llvm-14/lib
mv "$1.tmp" "$1"
