#!/bin/bash
# Runs the program beside this script against the source tree in the current
# directory. It exits with a non-zero status if the property does not hold.
here=$(cd "$(dirname "$0")" && pwd) || exit 9
repo=$PWD
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS=-mod=mod
export HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
dir=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 9
trap 'rm -rf "${dir:?}"' EXIT
cp "$here/demo.go" "$dir/main.go" || exit 9
sed 's/^module .*/module demo/' "$repo/go.mod" > "$dir/go.mod" || exit 9
cp "$repo/go.sum" "$dir/go.sum" || exit 9
printf '\nrequire github.com/dogmatiq/testkit v0.0.0\nreplace github.com/dogmatiq/testkit => %s\n' "$repo" >> "$dir/go.mod"
cd "$dir" || exit 9
go build -race -o prog . || exit 9
GORACE="halt_on_error=1 exitcode=66" timeout 200 ./prog
