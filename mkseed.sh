#!/bin/bash
# dev helper: mkseed.sh <id> <property> <needs> <what_it_breaks> <main.rs>: capture /repo's diff as a planted bug
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .
cp /verif/demo_template.sh $D/demo.sh
[ -n "$5" ] && cp "$5" $D/main.rs
python3 - "$D" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
