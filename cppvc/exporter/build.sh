#!/bin/bash
# builds the AST exporter into /verif/build (git-ignored)
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../../build}; mkdir -p "$OUT"
clang++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_LIMIT_MACROS -D__STDC_CONSTANT_MACROS "$D/export.cpp" -o "$OUT/cppvc-export.tmp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$OUT/cppvc-export.tmp" "$OUT/cppvc-export"
