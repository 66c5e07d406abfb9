#!/bin/bash
# builds the engine into $1 (default /verif/build/engine)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build/engine}; mkdir -p "$O"
LL=/usr/lib/llvm-18
FL="-std=c++17 -O2 -g1 -w -I$LL/include -fno-rtti"
pids=()
for f in expr lia solver memory decode exec main; do
  g++ $FL -c $D/$f.cpp -o $O/$f.o & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
g++ -o $O/symex $O/{expr,lia,solver,memory,decode,exec,main}.o -L$LL/lib -lLLVM-18 -lz3 -lpthread
g++ $FL -o $O/prep $D/prep.cpp -L$LL/lib -lLLVM-18 -ldl
