#!/bin/sh
# build.sh OUT: compile the engine
cd "$(dirname "$0")" && exec clang++ -O2 -std=c++17 -w -fexceptions -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -I/usr/lib/llvm-18/include symx.cpp -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
