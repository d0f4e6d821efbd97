#!/bin/sh
# builds the symbolic executor into /verif/build (or $1)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
clang++ -O2 -g1 -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') -fexceptions -w -o "$out/symx.tmp" "$here/symx.cpp" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
mv "$out/symx.tmp" "$out/symx"
