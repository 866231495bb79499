#!/bin/bash
# builds the IR dumper and a precompiled header of the third-party headers (setup_cmd of MANIFEST.json)
set -e
cd "$(dirname "$0")/.."
mkdir -p build
if ! [ build/irdump -nt tool/irdump.cpp ]; then
    clang++ -std=c++17 -O2 -fno-rtti $(/usr/lib/llvm-18/bin/llvm-config --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') tool/irdump.cpp -o build/irdump.tmp.$$ -L/usr/lib/llvm-18/lib -lLLVM-18
    mv build/irdump.tmp.$$ build/irdump
fi
if ! [ build/pre.pch -nt tool/pre.hpp ]; then
    # optional: saves time, checks work without it
    /usr/lib/llvm-18/bin/clang++ -std=c++17 -g -O0 -Xclang -disable-O0-optnone -fstandalone-debug -Wno-everything -x c++-header tool/pre.hpp -o build/pre.tmp.$$ && mv build/pre.tmp.$$ build/pre.pch || true
fi
