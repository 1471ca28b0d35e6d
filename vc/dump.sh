#!/bin/sh
# "prover" that keeps each obligation as a numbered SMT-LIB file
n=$(ls "$VCDIR" | wc -l)
{ echo "(set-logic ALL)"; cat "$1"; } > "$VCDIR/$n.smt2"
