#!/bin/bash
# run.sh check ID [quick|thorough]   builds the checker against /repo's working tree and runs one check
# run.sh replay FILE                 re-executes a recorded violation
# run.sh setup                       only checks that it builds
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
unset TRACE GOMAXPROCS GOGC GOMEMLIMIT GODEBUG
D=$(mktemp -d /tmp/vmc-build-XXXXXX) || exit 2
trap '/bin/rm -rf "$D"' EXIT
mkdir -p evidence
cp -r mc "$D/mc" || exit 2   # go may rewrite go.mod: build from a copy
( cd "$D/mc" && go build -o "$D/vmc" . ) || { echo "run.sh: the checker does not build against /repo" >&2; exit 2; }
if [ "${2:-}" = P07 ] && [ "$1" = check ]; then
  ( cd "$D/mc" && go build -race -o "$D/vmc-race" . ) || { echo "run.sh: no race build" >&2; exit 2; }
  export VMC_RACE="$D/vmc-race"
fi
case "$1" in
  setup) exit 0 ;;
  check) "$D/vmc" check "$2" "${3:-${VERIF_TIER:-quick}}" ;;
  replay) "$D/vmc" replay "$2" ;;
  *) echo "usage: run.sh check ID [TIER] | replay FILE" >&2; exit 2 ;;
esac
