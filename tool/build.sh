#!/bin/bash
# builds the libTooling front end into /verif/build/astdump (git-ignored)
set -e
D=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$D/build"
if [ ! -x "$D/build/astdump" ] || [ "$D/tool/astdump.cc" -nt "$D/build/astdump" ]; then
  T=$(mktemp "$D/build/astdump.XXXXXX")
  g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include "$D/tool/astdump.cc" -o "$T" \
    -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1
  chmod 755 "$T"
  mv -f "$T" "$D/build/astdump"
fi
