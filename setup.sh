#!/bin/sh
# Build the AST extractor from the committed source (offline, ~30 s).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
clang++ -std=c++17 -O1 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') \
  tool/astdump.cpp -o build/astdump.tmp$$ /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 \
  -L/usr/lib/llvm-18/lib -lLLVM-18
mv build/astdump.tmp$$ build/astdump
