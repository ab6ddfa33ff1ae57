#!/bin/bash
# Builds the libTooling extractor into /verif/build/lhfx (skipped when up to date).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build
mkdir -p "$out"
if [ -x "$out/lhfx" ] && [ "$(cat "$out/lhfx.sum" 2>/dev/null)" = "$(sha256sum < "$here/lhfx.cpp")" ]; then exit 0; fi
tmp=$out/lhfx.$$
clang++-18 -std=c++17 -O1 -fno-rtti -w $(/usr/lib/llvm-18/bin/llvm-config --cxxflags | sed 's/-std=c++17//') \
  "$here/lhfx.cpp" -o "$tmp" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$tmp" "$out/lhfx"
sha256sum < "$here/lhfx.cpp" > "$out/lhfx.sum"
