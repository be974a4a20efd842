#!/bin/bash
# runrefs.sh [-b] [NAME...]: applies each behaviour-preserving edit of tools/refactors to /repo, runs the quick checks
# (-b: only builds the harness crates), undoes it. All of them have to stay quiet.
cd /verif
B=; [ "$1" = -b ] && { B=1; shift; }
for d in ${@:-$(ls tools/refactors | sed s/.diff//)}; do
  git -C /repo apply /verif/tools/refactors/$d.diff || { echo "$d: does not apply"; continue; }
  if [ $B ]; then
    python3 - <<P
import sys; sys.path.insert(0,'lib')
import build, registry
for c in sorted({h[0] if isinstance(h,tuple) else h['crate'] for h in registry.HARNESSES.values()}):
    try: build.harness(c)
    except BaseException as e: print("$d", c, "does not build:", str(e)[-1500:])
P
  else
    case $d in
      proxy-*) l="C23 C24 C25 C26 C27 C28 C29 C30 C31";;
      stream-*) l="C17 C18 C19 C20 C21 C22 C23 C24 C28";;
      handle-*) l="C14 C15 C01 C07";;
      *) l="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C16 C22 C23 C24 C26 C27";;
    esac
    for p in ${P:-$l}; do
      out=$(python3 check.py $p quick 2>&1) || echo "$d $p: $(echo "$out" | tail -5)"
    done
  fi
  git -C /repo checkout -q -- .
  echo "$d done $(date +%T)"
done
