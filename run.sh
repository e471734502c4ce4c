#!/bin/bash
# Usage: run.sh CHECK [vmctool flags]   (environment: VERIF_TIER, VERIF_SEED)
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
GO=/opt/veriftools/go1.24.13/bin/go
[ -x "$GO" ] || GO=$(command -v go1.24 || command -v go)
check=$1; shift
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vmctool-XXXXXX") || exit 3
(cd "$here/vmc/tool" && "$GO" build -o "$tmp/vmctool" .) || exit 3
exec "$tmp/vmctool" -self "$tmp" -root "$here" -go "$GO" -check "$check" "$@"
