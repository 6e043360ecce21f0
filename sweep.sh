#!/bin/bash
# usage: sweep.sh "P01 P02" "1 2 3" [tier]: run checks with many seeds, show only problems
cd "$(dirname "$0")"
for p in $1; do for s in $2; do
  o=$(/opt/venv/bin/python run_check.py $p --seed $s --tier ${3:-quick} 2>&1) || { echo "== $p seed $s"; echo "$o" | cut -c1-300 | tail -${LINES_:-3}; }
done; done
echo swept
