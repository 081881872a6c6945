#!/bin/bash
# Builds the IR extractor used by the flow and table engines.
set -e
cd "$(dirname "$0")/.."
mkdir -p build
/usr/bin/clang++-18 -O1 engine/irx.cpp -o build/irx.tmp $(llvm-config-18 --cxxflags --ldflags --libs core bitwriter irreader analysis support demangle)
/usr/bin/clang++-18 -O1 -fPIC -shared engine/phigep.cpp -o build/phigep.so.tmp $(llvm-config-18 --cxxflags)
mv build/phigep.so.tmp build/phigep.so
mv build/irx.tmp build/irx
cat engine/irx.cpp engine/phigep.cpp | sha256sum | cut -d" " -f1 > build/irx.stamp
