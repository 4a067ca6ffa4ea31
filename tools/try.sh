#!/bin/bash
# usage: try.sh ID CHECK...: the checks' answer with the planted change ID applied to /repo
git -C /repo apply /verif/seeded/$1/patch.diff || exit 9
id=$1; shift
cd /verif; for p in "$@"; do python3 run.py $p | grep -v KNOWN | tail -3 | cut -c1-260; done
git -C /repo checkout -q -- .
