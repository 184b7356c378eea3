#!/bin/bash
# builds the IR extractor; output: /verif/build/irx
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
L=/usr/lib/llvm-18
sum=$(sha256sum "$here/irx.cpp" | cut -c1-16)
if [ -x "$out/irx" ] && [ "$(cat "$out/irx.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
$L/bin/clang++ -std=c++17 -O1 -fno-rtti $($L/bin/llvm-config --cppflags) "$here/irx.cpp" -o "$out/irx.tmp.$$" -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
mv "$out/irx.tmp.$$" "$out/irx"; echo "$sum" > "$out/irx.sum"
