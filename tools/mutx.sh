#!/bin/bash
# usage: mut.sh FILE 'python-regex' 'replacement' CHECK...: what the checks answer to a one-off edit of /repo (reverted afterwards)
f=/repo/$1; a=$2; b=$3; shift 3
python3 - "$f" "$a" "$b" <<'P' || exit 1
import sys,re
f,a,b=sys.argv[1:]
s=open(f).read(); n=re.subn(a,lambda m:b,s,count=1,flags=re.S)
if not n[1]: print("NO MATCH",a); sys.exit(1)
open(f,'w').write(n[0])
P
for c in "$@"; do (cd /verif; bash /tmp/rx.sh $c 2>&1 | grep -v KNOWN | tail -${N:-2} | cut -c1-${W:-200}); done
git -C /repo checkout -q -- .
