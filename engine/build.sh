#!/bin/sh
# builds the engine: engine/build.sh OUT
cd "$(dirname "$0")" || exit 1
exec clang++ -std=c++17 -O2 -fno-rtti -Wno-deprecated-declarations -I/usr/lib/llvm-18/include symex.cpp -o "$1" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
