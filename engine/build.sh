#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build).
D=$(cd "$(dirname "$0")" && pwd); B=${1:-$D/../build}; mkdir -p "$B"
CXXF="-std=c++20 -O2 -fno-rtti -w $(/usr/bin/llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//; s/-D_GNU_SOURCE//')"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ "$CLSYM_Z3" = new ] && [ -e $Z/lib/libz3.so ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -Wl,-rpath,$Z/lib -lz3"; else ZI=; ZL=-lz3; fi
pids=()
for f in expr solver memory threads exec externals main; do
  ( g++ $CXXF $ZI -c "$D/$f.cpp" -o "$B/$f.o.$$" && mv "$B/$f.o.$$" "$B/$f.o" ) & pids+=($!)
done
for p in "${pids[@]}"; do wait $p || exit 1; done
g++ "$B"/{expr,solver,memory,threads,exec,externals,main}.o -o "$B/clsym.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL && mv "$B/clsym.$$" "$B/clsym"
