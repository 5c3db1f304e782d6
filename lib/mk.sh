#!/bin/bash
# mk.sh INCDIR SRC OUT.bc FLAGS... : LLVM IR of a harness with /repo's current headers
set -e
here=$(cd "$(dirname "$0")" && pwd)
inc=$1; src=$2; out=$3; shift 3
/usr/bin/clang++-18 -O0 -g1 -Xclang -disable-O0-optnone -fno-discard-value-names -w -I"$inc" -I"$here/../harness" "$@" -emit-llvm -c "$src" -o "$out.0"
/usr/bin/opt-18 -passes='function(sroa,simplifycfg),cgscc(inline<only-mandatory>),function(sroa,simplifycfg)' "$out.0" -o "$out"
rm -f "$out.0"
