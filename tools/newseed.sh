#!/bin/bash
# newseed.sh ID PROPERTY NEEDS BREAKS: makes seeded/ID from the current diff of /repo and undoes that
d=/verif/seeded/$1; mkdir -p $d; git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ] || exit 1; git -C /repo checkout -- .
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
bash /verif/tools/mkseed.sh $1
