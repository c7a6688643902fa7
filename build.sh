#!/bin/bash
# Builds the simulation binary from /repo's current working tree: copies the
# simulator, instruments the repository's packages next to it, compiles.
# Prints the path of the binary. Everything is written under $VERIF_WORK.
set -euo pipefail
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
WORK="${VERIF_WORK:-$HERE/.work}"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1 GOSUMDB=off
unset GOOS GOARCH GODEBUG || true
mkdir -p "$WORK"
exec 9>"$WORK/lock"
flock 9
# the instrumenter itself
mkdir -p "$WORK/tool"
( cd "$HERE/instr" && go build -o "$WORK/tool/instr" . ) 1>&2
rm -rf "$WORK/mod.new"
mkdir -p "$WORK/mod.new"
cp -a "$HERE/sim/." "$WORK/mod.new/"
"$WORK/tool/instr" -repo "$REPO" -out "$WORK/mod.new" 1>&2
# module file: the repository's requirements plus the linearizability checker
gov="$(awk '$1=="go"{print $2; exit}' "$REPO/go.mod")"
minor="$(echo "$gov" | cut -d. -f2)"
[ "${minor:-0}" -ge 22 ] || gov=1.21
{
  echo "module verisim"
  echo
  echo "go $gov"
  awk 'NR>0 && $1!="module" && $1!="go" && $1!="toolchain"' "$REPO/go.mod"
  echo
  echo "require github.com/bgokden/veri v0.0.0"
  echo "replace github.com/bgokden/veri => $REPO"
} > "$WORK/mod.new/go.mod"
cat "$REPO/go.sum" "$HERE/extra.sum" > "$WORK/mod.new/go.sum"
# keep the directory path stable so that the build cache is effective
rm -rf "$WORK/mod"
mv "$WORK/mod.new" "$WORK/mod"
# the library level scenarios are left out if exported signatures have changed
( cd "$WORK/mod" && { go build -o "$WORK/simbin.new" ./cmd/veriesim || go build -tags nolib -o "$WORK/simbin.new" ./cmd/veriesim; } ) 1>&2
mv "$WORK/simbin.new" "$WORK/simbin"
echo "$WORK/simbin"
