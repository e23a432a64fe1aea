#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the checker and decides one property
# on the source in /repo.
cd "$(dirname "$0")" || exit 1
V="$PWD"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export PATH="/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off
export GOCACHE="$V/.cache/go" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
mkdir -p "$V/.cache" "$V/evidence"
bin="$V/.cache/checker"
if [ ! -x "$bin" ] || [ -n "$(find checker -newer "$bin" -type f | head -1)" ]; then
  if ! (cd checker && CGO_ENABLED=0 GOFLAGS=-mod=mod go build -o "$bin" .) ; then
    echo "the checker does not build"
    echo "VIOLATION property=$id replay=evidence/$id.replay.txt"
    exit 1
  fi
fi
[ "$id" = build ] && exit 0
"$bin" -property "$id" -repo "${VERIF_REPO:-/repo}" -verif "$V" -tier "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "the checker ended with status $rc"
  echo "VIOLATION property=$id replay=evidence/$id.replay.txt"
  exit 1
fi
exit $rc
