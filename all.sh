#!/bin/bash
# runs every registered check: all.sh [ID...]
here=$(cd "$(dirname "$0")" && pwd)
ids=("$@")
[ ${#ids[@]} -gt 0 ] || ids=($(sed -n 's/.*"id": *"\(C[0-9]*\)".*/\1/p' "$here/properties.jsonl"))
for id in "${ids[@]}"; do
	s=$(date +%s.%N)
	out=$("$here/run.sh" "$id" 2>&1); rc=$?
	printf '%s rc=%d %.1fs %s\n' "$id" $rc "$(echo "$(date +%s.%N) - $s" | bc)" "$(echo "$out" | grep -m1 'VIOLATION\|held on\|inconclusive\|failed' | cut -c1-150)"
	[ $rc = 0 ] || echo "$out" | head -${LINES_OUT:-12} | cut -c1-300
done
