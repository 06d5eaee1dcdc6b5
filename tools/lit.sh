#!/bin/bash
# Plays the project's session tests that need no evaluation; prints those whose
# expectations the output of the current tree does not meet.
cd "$(dirname "$0")/.." && python3 build.py litrun >/dev/null || exit 1
bad=0 n=0
for f in $(find /repo/nixd/tools/nixd/test -name '*.md' | sort); do
  run=$(grep -m1 -A3 'RUN:' $f)
  case "$run" in *nixpkgs-expr*|*options-expr*|*-config*|*TEST_DIR*|*semantic-tokens*) continue;; esac
  n=$((n+1))
  timeout 20 build/bin/litrun < $f > /tmp/lit.out 2>/dev/null
  FileCheck-18 $f < /tmp/lit.out > /tmp/lit.err 2>&1 || { bad=$((bad+1)); echo "FAIL $f"; [ -n "$V" ] && head -20 /tmp/lit.err; }
done
echo "$n played, $bad failed"
