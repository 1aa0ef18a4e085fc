#!/bin/bash
# Compares the hand-written p4est/libsc models with the installed libraries. Usage: models/validate.sh
set -e
d=$(mktemp -d); trap 'find "$d" -delete' EXIT; cd "$(dirname "$0")"
fl=$(mpicc --showme:compile)
for m in p4est p8est sc; do clang -O1 -w -c ${m}_model.c -o $d/$m.o $fl; done
ld -r $d/p4est.o $d/p8est.o $d/sc.o -o $d/all.o
nm --defined-only $d/all.o | awk '{print $3" mod_"$3}' > $d/map; objcopy --redefine-syms=$d/map $d/all.o
clang++ -O1 -w validate.cpp $d/all.o -o $d/v $fl -lp4est -lsc -lmpi -lm -lz
$d/v
