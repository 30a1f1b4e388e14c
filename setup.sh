#!/bin/bash
# Build the IR exporter into /verif/build (git-ignored).
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/irdump ] || [ tool/irdump.cpp -nt build/irdump ]; then
  clang++-18 -O1 -std=c++17 $(llvm-config-18 --cxxflags | tr ' ' '\n' | grep -E '^-I|^-D' | tr '\n' ' ') \
    -fno-rtti -fexceptions tool/irdump.cpp -o build/irdump.tmp.$$ -L/usr/lib/llvm-18/lib -lLLVM-18
  mv build/irdump.tmp.$$ build/irdump
fi
