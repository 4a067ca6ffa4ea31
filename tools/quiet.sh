#!/bin/bash
# every behaviour-preserving edit in tools/refactor must leave the checks quiet
cd /verif
for d in ${R:-/verif/tools/refactor/*.diff}; do
  git -C /repo apply $d || { echo "$d does not apply"; continue; }
  for c in ${@:-$(ls checks/c*.py | sed 's/.*c\(..\).py/C\1/')}; do python3 run.py $c > /tmp/q.out 2>&1 || { echo "$d $c: NOT QUIET"; grep -v KNOWN /tmp/q.out | tail -6 | cut -c1-200; }; done
  git -C /repo checkout -q -- .
done
