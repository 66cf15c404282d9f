#!/bin/bash
# builds the symbolic executor into /verif/build (ignored by git)
set -e
cd "$(dirname "$0")"
B=../build; mkdir -p $B
if [ $B/llsym -nt llsym.cpp ] && [ $B/llsym -nt expr.cpp ] && [ $B/llsym -nt expr.h ] && [ $B/llsym -nt solver.cpp ] && [ $B/llsym -nt solver.h ]; then exit 0; fi
FLAGS="-std=c++20 -O2 -g1 -I$(llvm-config-18 --includedir) -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -Wno-deprecated-declarations"
T=$(mktemp -d)
for f in expr solver llsym; do clang++-18 $FLAGS -c $f.cpp -o $T/$f.o & done
for j in $(jobs -p); do wait $j; done
clang++-18 $T/*.o -o $B/llsym.tmp -L$(llvm-config-18 --libdir) -lLLVM-18 -lz3 -lpthread
mv $B/llsym.tmp $B/llsym
rm -f $T/*.o; rmdir $T
