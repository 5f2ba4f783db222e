#!/bin/bash
# builds /verif/build/extract from engine/extract.cpp (only when missing or older)
set -e
cd "$(dirname "$0")"
mkdir -p ../build
if [ ! -x ../build/extract ] || [ extract.cpp -nt ../build/extract ]; then
	t=$(mktemp ../build/extract.XXXXXX)
	g++ -O1 $(llvm-config-18 --cxxflags) -fno-rtti extract.cpp -o $t /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
	chmod +x $t; mv -f $t ../build/extract
fi
