#!/bin/bash
# builds the symbolic executor: build.sh OUT
set -e
D=$(dirname "$(readlink -f "$0")")
g++ -O2 -std=c++17 -fno-rtti -fexceptions $(llvm-config-18 --cppflags 2>/dev/null || echo "-I/usr/include/llvm-18 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS") "$D/rsym.cpp" -o "$1.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$1.tmp" "$1"
