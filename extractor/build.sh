#!/bin/bash
# Build the extractor into $1 (default /verif/.build/dgx)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.build/dgx}
mkdir -p "$(dirname "$out")"
tmp=$out.$$
g++ -O1 -std=c++17 -fno-rtti $(/usr/bin/env llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') \
  "$here/extract.cpp" -o "$tmp" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$tmp" "$out"
