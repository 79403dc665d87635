#!/bin/bash
# Usage: run.sh PROPERTY TIER [-case N]
#
# Builds the harness against the current content of /repo and runs one check.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
shift 2

export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH="${GOPATH:-/root/go}"
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
export GOFLAGS=-mod=mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"

work="$(mktemp -d /tmp/verif-XXXXXXXX)" || exit 5
trap 'rm -rf -- "${work:?}"' EXIT
cp -r "$here/harness" "$work/src" || exit 5

if ! (cd "$work/src" && go build -race -o "$work/harness" .) >"$work/build.log" 2>&1; then
	cat "$work/build.log" >&2
	echo "unable to build the harness against /repo" >&2
	exit 6
fi

"$work/harness" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" \
	-evidence "$here/evidence" -known "$here/known_findings.txt" "$@"
