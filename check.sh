#!/bin/bash
# check.sh Cxx [thorough]: decides one property on /repo's current tree. Exit 0: holds, 1: violation.
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=1
V="$PWD"
P="$1"
if [ "$2" = thorough ]; then export VERIF_TIER=thorough; fi
mkdir -p .build evidence
if ! ( cd gover && go build -o "$V/.build/gover" . ); then
  echo "the verifier does not build" >&2
  [ -x .build/gover ] || exit 2
fi
.build/gover -prop "$P" -verif "$V" -repo /repo -tier "${VERIF_TIER:-quick}"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  mkdir -p evidence/replay
  echo "the verifier ended with status $rc" > "evidence/replay/$P.txt"
  echo "VIOLATION property=$P replay=$V/evidence/replay/$P.txt no-failing-input-found"
  rc=1
fi
exit $rc
