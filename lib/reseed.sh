#!/bin/bash
# reseed.sh ID: re-confirm an existing planted bug (demo both ways; CHECK=1 also runs the check)
d=/verif/seeded/$1; m() { python3 -c "import json;print(json.load(open('$d/meta.json'))['$1'])"; }
cp $d/demo.c /tmp/reseed_demo.c; git -C /repo apply $d/patch.diff || exit 1
CHECK=${CHECK:-} bash /verif/lib/mkseed.sh $1 "$(m property)" "$(m needs)" "$(m what_it_breaks)" < /tmp/reseed_demo.c
