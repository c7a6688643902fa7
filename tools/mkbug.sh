#!/bin/bash
# mkbug.sh ID PROP PKG NEEDS BREAKS: takes the edit made in /tmp/pl and the demo
# test in /tmp/demo_test.go, writes seeded/ID, resets /tmp/pl, validates.
set -e
ID=$1 PROP=$2 PKG=$3 NEEDS=$4 BREAKS=$5
D=/verif/seeded/$ID
mkdir -p $D
git -C /tmp/pl diff > $D/patch.diff
cp /tmp/demo_test.go $D/demo_test.go
sed "s#@PKG@#$PKG#g" /verif/tools/demo_template.sh > $D/demo.sh
python3 - "$D/meta.json" "$PROP" "$NEEDS" "$BREAKS" <<'PY'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],"w"),indent=1)
PY
git -C /tmp/pl checkout -q -- .
bash /verif/tools/valbug.sh $ID
