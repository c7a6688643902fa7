#!/bin/bash
# Runs demo_test.go inside package @PKG@ of the repository in the current
# directory: passes when the behaviour is right.
D="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T"
printf '{"Replace":{"%s/@PKG@/zz_planted_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
go test -vet=off -count=1 -overlay "$T/overlay.json" -run '^TestPlantedDemo$' -timeout 280s ./@PKG@
