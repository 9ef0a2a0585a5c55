#!/bin/bash
# Builds the fact extractor into $1 (default: /verif/build/kx).
set -e
cd "$(dirname "$0")"
out=${1:-../build/kx}
mkdir -p "$(dirname "$out")"
L=/usr/lib/llvm-18/lib
tmp=$(mktemp "$out.XXXXXX")
clang++ -std=c++17 -O1 -fno-rtti -w $(/usr/lib/llvm-18/bin/llvm-config --cppflags) kx.cc -o "$tmp" \
  $L/libclang-cpp.so.18.1 $L/libLLVM-18.so -Wl,-rpath,$L
mv -f "$tmp" "$out"
