#!/bin/bash
# Builds the IR extractor into /verif/build (needs clang-18 and the LLVM 18 development files).
set -e
cd "$(dirname "$0")"
mkdir -p ../build
clang++-18 -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cppflags) irdump.cpp -o ../build/irdump.tmp.$$ \
    $(llvm-config-18 --ldflags) -lLLVM-18
mv ../build/irdump.tmp.$$ ../build/irdump
