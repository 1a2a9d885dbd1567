#!/bin/bash
# check.sh PROPERTY [TIER]: builds the checker and runs the harnesses of one property
set -u
V="$(cd "$(dirname "$0")" && pwd)"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && PATH="$d:$PATH" && break; done
export PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=1
export GOCACHE="${GOCACHE:-${HOME:-/root}/.cache/go-build}"
B="$(mktemp -d /tmp/vpcheck.XXXXXX)" || exit 2
trap 'rm -rf "$B"' EXIT
(cd "$V/engine" && go build -o "$B/vpcheck" .) || exit 2
if [ "${1:-}" = replay ]; then
  VERIF_DIR="$V" "$B/vpcheck" -replay "$2"
else
  VERIF_DIR="$V" "$B/vpcheck" -prop "$1" -tier "${2:-quick}"
fi
