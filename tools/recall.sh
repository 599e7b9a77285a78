#!/bin/bash
# re-record the baselines of the given (or all) properties
cd "$(dirname "$0")/.."; for p in ${@:-$(ls specs/C*.spec | sed 's/.*\/\(C[0-9]*\).*/\1/')}; do python3 check.py $p quick --record 2>&1 | cut -c1-250 | tail -4; done
