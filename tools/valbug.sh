#!/bin/bash
# valbug.sh ID [notest]: demo passes without and fails with the patch; builds; stable tests pass
ID=$1; D=/verif/seeded/$ID
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
cd /tmp/pl || exit 1
git checkout -q -- . ; git clean -fdq
git fetch -q /repo main 2>/dev/null; git checkout -q --detach $(git -C /repo rev-parse HEAD) || exit 1
bash $D/demo.sh > /tmp/pl.$ID.clean.log 2>&1 && echo "$ID clean demo: ok" || echo "$ID clean demo: FAILS (bad)"
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
# lines changed must be original ones
go build ./... || { echo "$ID: does not build"; git checkout -q -- .; exit 1; }
bash $D/demo.sh > /tmp/pl.$ID.bug.log 2>&1 && echo "$ID bug demo: PASSES (bad)" || echo "$ID bug demo: fails as wanted"
if [ "$2" != notest ]; then
go test -vet=off -count=1 ./... 2>&1 | grep -E '^(FAIL|---|panic)' && echo "$ID: tests FAIL (bad)" || echo "$ID tests pass"
fi
git checkout -q -- . ; git clean -fdq
python3 - $D/patch.diff <<'PY'
import sys,subprocess,re
# removed lines should be blamed on the base commit
f=None;line=0
for l in open(sys.argv[1]):
    if l.startswith("--- a/"): f=l[6:].strip()
    elif l.startswith("@@"):
        line=int(re.match(r"@@ -(\d+)",l).group(1))-1
    elif l.startswith("+++"): pass
    elif l.startswith("-"):
        line+=1
        b=subprocess.check_output(["git","-C","/repo","blame","-s","-L",f"{line},{line}",f],text=True)
        if not b.startswith("^"): print("NOT ORIGINAL:",b.strip())
    elif l.startswith("+"): pass
    elif l.startswith(" "): line+=1
PY
