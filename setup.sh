#!/bin/bash
# Builds the harness once (offline), so that the Go build cache is warm and a broken
# toolchain shows before any check runs.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
work=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap 'rm -rf "$work"' EXIT
cd "$here/harness"
go vet .
go build -o "$work/h" .
CGO_ENABLED=1 go build -race -o "$work/hr" .
"$work/h" list
