#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O"
LC=/usr/lib/llvm-18/bin/llvm-config
g++ -O1 -w -o "$O/irprep" "$D/irprep.cpp" $($LC --cxxflags) -fexceptions $($LC --ldflags) -lLLVM-18
