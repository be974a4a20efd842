#!/bin/bash
# mkbug.sh ID KIND PROPERTY NEEDS BREAKS < main.rs : records /repo's uncommitted change as a planted bug.
d=/verif/seeded/$1; mkdir -p $d/demo/src; echo $2 > $d/kind; if [ $2 = proxy ]; then cat > $d/demo/src/scenario.rs; else cat > $d/demo/src/main.rs; fi
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
[ -s $d/patch.diff ] || { echo "empty patch $1"; exit 1; }
python3 - "$@" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[3],"needs":sys.argv[4],"what_it_breaks":sys.argv[5]},indent=1))
P
python3 /verif/tools/mkdemo.py $1
