#!/bin/bash
# Build the extractor (into /verif/build, not committed) unless it is there and up to date.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build
mkdir -p "$out"
if [ ! -x "$out/astx" ] || [ "$here/astx.cpp" -nt "$out/astx" ]; then
	clang++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include "$here/astx.cpp" -o "$out/astx.$$" \
		/usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so
	mv "$out/astx.$$" "$out/astx"
fi
