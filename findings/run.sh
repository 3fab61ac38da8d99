#!/bin/bash
# run.sh fNN.c [repo]: concrete replay of a finding against real code with sanitizers.
# (documentation of findings only; no check uses this)
R=${2:-/repo}; f=$1
srcs=$(sed -n 's/^\/\/ SRCS: //p' "$f"); d=$(mktemp -d)
gcc -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -I$R/src -I$R/_build/src -DEMV_DEBUG_ENABLED $(sed -n 's/^\/\/ DEFS: //p' "$f") \
  "$f" $(for s in $srcs; do echo $R/src/$s; done) -o $d/t && timeout 20 $d/t 2>&1 | head -15; rc=${PIPESTATUS[0]}; rm -rf "$d"
echo "rc=$rc"
