#!/bin/bash
# Run every claimed check (quick), a few at a time; print one line each.
cd "$(dirname "$0")/.."
ls harness/C*.py | sed 's#.*/##; s#.py##' | xargs -P ${J:-3} -I{} sh -c 'o=$(python3-vt check.py {} --tier ${TIER:-quick} 2>&1); r=$?; echo "{} rc=$r $(echo "$o" | tail -1)"; [ $r = 0 ] || echo "$o" | grep -m3 "VIOLATION\|counterexample\|INCONCL"'
