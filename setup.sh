#!/bin/bash
# Builds the harness; every check builds what it needs by itself as well.
. /verif/env.sh
build_all_bins & a=$!
build_progs & b=$!
build_memcheck & c=$!
rc=0
for pid in $a $b $c; do
    wait $pid || rc=1
done
[ $rc = 0 ] && fresh_features && /verif/target/gen/debug/c24 --build
