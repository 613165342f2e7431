#!/bin/bash
# run.sh ID quick|thorough: builds the harness against /repo's working tree and runs one property check.
# run.sh replay FILE: repeats one case. run.sh build: builds only.
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$V"
cd "$V/harness" || exit 3
mkdir -p "$V/bin"
if ! go build -tags testing -o "$V/bin/pbt.$$" ./cmd/pbt >"$V/bin/build.$$.log" 2>&1; then
	cat "$V/bin/build.$$.log" >&2
	exit 3
fi
trap 'rm -f "$V/bin/pbt.$$"' EXIT
case "$1" in
build) mv "$V/bin/pbt.$$" "$V/bin/pbt"; exit 0 ;;
replay) "$V/bin/pbt.$$" replay "$2" ;;
list) "$V/bin/pbt.$$" list ;;
*) "$V/bin/pbt.$$" run "$1" "$2" ;;
esac
exit $?
