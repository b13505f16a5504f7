#!/bin/bash
# mk.sh ID PROPERTY WHERE "needs" "breaks" < demo.rs ; takes the current working tree diff of /repo as the patch and undoes it
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; git -C /repo checkout -- .
[ -s $D/patch.diff ] || echo "EMPTY PATCH $1"
cat > $D/demo.rs
if [ -n "$3" ]; then echo "$3" > $D/where.txt; fi
python3 - "$@" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[4],"what_it_breaks":sys.argv[5]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
X
cp /verif/tools/seedkit.sh $D/demo.sh
