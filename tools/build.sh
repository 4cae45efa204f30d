#!/bin/sh
# builds the IR dumper (needs only clang/LLVM 18 of the sandbox)
set -e
cd "$(dirname "$0")"
mkdir -p ../build
L=/usr/lib/llvm-18/bin/llvm-config
clang++-18 -O1 $($L --cxxflags) irdump.cpp -o ../build/irdump.$$ $($L --ldflags --libs core irreader linker passes analysis support --system-libs)
mv ../build/irdump.$$ ../build/irdump
