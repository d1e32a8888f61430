#!/bin/bash
# run.sh build | run.sh PROPERTY [--replay FILE]
# Builds the harness against /repo's working tree and runs the check of one property.
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="$PWD"
. harness/env.sh
mkdir -p evidence
work=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
trap 'exit 3' INT TERM
export VERIF_WORK="$work"
case "$1" in
  C0[1-9]|C10) cmd=lib ;;
  C*) cmd=gen ;;
  build) (cd harness && go build -o "$work" ./cmd/... && go build -o "$work/sqlgen" github.com/si3nloong/sqlgen/cmd/sqlgen); exit $? ;;
  *) echo "usage: $0 build|PROPERTY [--replay FILE]" >&2; exit 3 ;;
esac
[ "$2" = --replay ] && export VERIF_REPLAY="$(realpath "$3")"
(cd harness && go build -o "$work/check" ./cmd/$cmd && { [ $cmd = lib ] || go build -o "$work" ./cmd/genchild && { [ "$1" != C20 ] || go build -o "$work/sqlgen" github.com/si3nloong/sqlgen/cmd/sqlgen; }; }) || { echo "the harness does not build against /repo" >&2; exit 3; }
"$work/check" "$1"
