#!/bin/sh
# every property, summary lines only
cd "$(dirname "$0")/.."
for f in sa/props/C*.py; do i=$(basename $f .py); python3 run.py $i "$@" > /tmp/all.$i.out 2>&1; echo "rc=$? $(head -1 /tmp/all.$i.out)"; grep -E "^(UNDECIDED|ANALYSIS|KNOWN|VIOLATION)" /tmp/all.$i.out; done
