#!/bin/bash
# builds the AST extractor into /verif/build (or $1)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include "$here/cxdump.cpp" -o "$out/cxdump" \
  /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18 -L/usr/lib/llvm-18/lib -lLLVM-18
