#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds the simulation from /repo's
# working tree and searches for violations of the property.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
PROP="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
case "$TIER" in quick) SECS="${VERIF_SECS:-75}";; *) TIER=thorough; SECS="${VERIF_SECS:-600}";; esac
BIN="$("$HERE/build.sh")" || { echo "build failed" >&2; exit 2; }
cd "$HERE"
exec "$BIN" check -prop "$PROP" -tier "$TIER" -seed "$SEED" -secs "$SECS" -workers "${VERIF_WORKERS:-8}" -out "$HERE/out" -evidence "$HERE/evidence/$PROP.json" -known "$HERE/known_findings.json"
