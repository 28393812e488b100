#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the checker and decides one property on /repo's current source.
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTELEMETRY=off
here="$(cd "$(dirname "$0")" && pwd)"
tier="${2:-${VERIF_TIER:-quick}}"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf -- "$tmp"' EXIT
if ! (cd "$here/checker" && go build -o "$tmp/checker" .); then
  echo "the checker does not build" >&2
  exit 3
fi
"$tmp/checker" -prop "$1" -tier "$tier" -repo "${REPO:-/repo}" -verif "$here"
exit $?
