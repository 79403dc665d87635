#!/bin/bash
# Warms the build cache, so that each check only has to link.
set -eu
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH="${GOPATH:-/root/go}"
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
export GOFLAGS=-mod=mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
work="$(mktemp -d /tmp/verif-XXXXXXXX)"
trap 'rm -rf -- "${work:?}"' EXIT
cp -r "$here/harness" "$work/src"
cd "$work/src"
go build -race -o "$work/harness" .
"$work/harness" -list
