#!/bin/bash
# origlines.sh ID...: how many lines of the original repository each planted change removes or replaces
base=$(git -C /repo rev-list --max-parents=0 HEAD | tail -1); base=${BASE:-315a477}
for id in "$@"; do
  n=0
  while read -r f l; do
    c=$(git -C /repo blame -s --abbrev=7 -L $l,$l HEAD -- $f | cut -c1-9)
    case "$c" in *$base*) n=$((n+1));; esac
  done < <(python3 - /verif/seeded/$id/patch.diff <<'P'
import sys,re
f=None
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    elif l.startswith('@@'):
        n=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('+++') : pass
    elif l.startswith('-') and f: print(f,n); n+=1
    elif l.startswith(' '): n+=1
P
)
  echo "$id $n"
done
