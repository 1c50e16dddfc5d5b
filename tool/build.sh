#!/bin/bash
# builds the IR extractor into /verif/build (idempotent)
set -eu
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build
mkdir -p "$out"
if [ -x "$out/podioir" ] && [ "$out/podioir" -nt "$here/podioir.cpp" ]; then exit 0; fi
tmp=$(mktemp "$out/podioir.XXXXXX")
g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include "$here/podioir.cpp" -o "$tmp" \
  /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
chmod 755 "$tmp"; mv "$tmp" "$out/podioir"
