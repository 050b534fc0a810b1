#!/bin/bash
# Runs checks against a mutated copy of /repo.
# usage: mutate.sh "C02 C03" FILE PYTHON_OLD PYTHON_NEW   or   mutate.sh "C02" PATCH
# The copy and its build output live under /tmp.
M=/tmp/mrepo
mkdir -p $M
rsync -a --delete --exclude=.git --exclude=_build /repo/ $M/ 2>/dev/null || { rm -rf /tmp/mrepo; mkdir -p $M; tar -C /repo --exclude=.git --exclude=_build -cf - . | tar -C $M -xf -; }
if [ $# -eq 2 ]; then
  (cd $M && patch -s -p1 < "$2") || exit 3
else
  python3 - "$M/$2" "$3" "$4" <<'P' || exit 3
import sys
p,o,n=sys.argv[1:4]
s=open(p).read()
if s.count(o)<1: print('NOT FOUND'); sys.exit(3)
open(p,'w').write(s.replace(o,n,1))
P
fi
for c in $1; do
  (cd /verif && VERIF_REPO=$M VERIF_BUILD=/tmp/mbuild ./check $c 2>&1 | grep -E "VIOLATION|ERROR|rejected|error|done" | cut -c1-250 | head -${LINES_MAX:-6})
done
