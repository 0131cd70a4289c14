#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra flags of 'harness check']
# Builds the harness against /repo's working tree and runs one property's check.
set -u
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
export HOME=${HOME:-/root}
seed=${VERIF_SEED:-1}
case $seed in *[!0-9]*|'') seed=$(printf %s "$seed" | cksum | cut -d' ' -f1);; esac
work=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
race=
if [ "$prop" = C20 ]; then
	race=-race
	export CGO_ENABLED=1 GORACE="halt_on_error=1 exitcode=66"
fi
if ! (cd "$here/harness" && go build $race -o "$work/harness" .) >"$work/build.log" 2>&1; then
	cat "$work/build.log"
	echo "CHECK ERROR property=$prop: the harness does not build"
	exit 3
fi
"$work/harness" check -prop "$prop" -tier "$tier" -seed "$seed" -verif "$here" -work "$work" "$@"
