#!/bin/bash
# trybug.sh ID [PROP] [SECS]: runs a check against a scratch copy with the planted bug
ID=$1; D=/verif/seeded/$ID
PROP=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}; SECS=${3:-40}
R=/tmp/tb.$ID.$$; git clone -q /repo $R && cp /repo/go.sum $R/ && (cd $R && git apply $D/patch.diff) || exit 2
BIN=$(VERIF_REPO=$R VERIF_WORK=/tmp/tbw /verif/build.sh 2>/tmp/tb.err) || { tail -5 /tmp/tb.err; echo "$ID $PROP BUILD FAILED"; rm -rf $R; exit 2; }
cp $BIN /tmp/tb.bin.$ID
rm -rf /tmp/tbo.$ID; mkdir -p /tmp/tbo.$ID
(cd /verif; /tmp/tb.bin.$ID check -prop $PROP -tier quick -seed ${SEED:-1} -secs $SECS -workers 8 -out /tmp/tbo.$ID -evidence /tmp/tbo.$ID/ev.json -known /verif/known_findings.json > /tmp/tbo.$ID/log 2>&1; rc=$?; echo "$ID $PROP rc=$rc $(grep -m1 -E 'VIOLATION' /tmp/tbo.$ID/log) $(tail -1 /tmp/tbo.$ID/log | cut -c1-250)")
rm -rf $R
