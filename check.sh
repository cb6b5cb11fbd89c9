#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   decide one property
#        check.sh replay FILE                 replay a recorded counterexample natively
#        check.sh build                       build the checker
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
bin=$(mktemp -d /tmp/verif-bin-XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
( cd "$here/engine" && go build -o "$bin/engine" . ) || { echo "ERROR: the checker does not build" >&2; exit 3; }
case "${1:-}" in
build) exit 0 ;;
replay) "$bin/engine" replay -verif "$here" "$2"; exit $? ;;
esac
export GOGC=300
"$bin/engine" check -verif "$here" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}"
exit $?
