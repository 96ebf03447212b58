#!/bin/sh
# runs all checks (or those named) in parallel and prints a line for each
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls checks | sed -n 's/^p\([0-9]*\)\.py$/P\1/p')
printf '%s\n' "$@" | xargs -P 7 -I{} sh -c 'o=$(timeout 900 python3 check.py {} 2>&1); echo "rc=$? $(echo "$o" | grep -v "^KNOWN" | head -2 | cut -c1-170 | tr "\n" "|")"'
