#!/bin/bash
# builds the IR extractor into /verif/build (once; cheap to re-run)
set -e
H=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$H/build"
if [ ! -x "$H/build/irx" ] || [ "$H/engine/irx.cpp" -nt "$H/build/irx" ]; then
    g++ -O1 -std=c++17 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-DNDEBUG//') "$H/engine/irx.cpp" \
        -o "$H/build/irx.tmp.$$" $(llvm-config-18 --ldflags) -lLLVM-18
    mv "$H/build/irx.tmp.$$" "$H/build/irx"
fi
