#!/bin/bash
# usage: build.sh OUT
d=$(cd "$(dirname "$0")" && pwd)
exec g++ -O1 $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -fexceptions -fno-rtti -w "$d/irx.cpp" -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18
