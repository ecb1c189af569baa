#!/bin/bash
# Usage: check.sh <property> [quick|thorough]
# Builds the harness and the tool from the current tree in a scratch directory and decides the property.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off CGO_ENABLED=0
tier=${2:-${VERIF_TIER:-quick}}
scratch=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'chmod -R u+w "$scratch" 2>/dev/null; rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
(cd "$here/harness" && go build -o "$scratch/bin/verif" ./cmd/verif) || exit 2
"$scratch/bin/verif" -property "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$here" \
  -scratch "$scratch" -harness "$here/harness"
