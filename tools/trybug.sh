#!/bin/bash
# trybug.sh DIR [notest]: confirms, in a scratch copy of /repo, that the planted
# bug in DIR compiles, passes the tests, and is shown by its demonstration.
d=$(cd "$1" && pwd) || exit 1
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS=-mod=mod
s=$(mktemp -d /tmp/trybug.XXXXXX) || exit 1
trap 'rm -rf "${s:?}"' EXIT
cp -a /repo "$s/repo" || exit 1
cd "$s/repo" || exit 1
git checkout -q -- . || exit 1
(bash "$d/demo.sh") > "$s/clean.out" 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILED"; cat "$s/clean.out"; }
git apply "$d/patch.diff" || exit 1
git diff --stat | tail -1
if [ "$2" != notest ]; then
	go vet ./... > /dev/null 2>&1 || echo "vet: complaints"
	go test -race ./... > "$s/test.out" 2>&1 && echo "tests: ok" || { echo "tests: FAILED"; grep -E '^(---|FAIL|  \[FAIL\])|\[FAIL\]' "$s/test.out" | head -20; tail -5 "$s/test.out"; }
fi
(bash "$d/demo.sh") > "$s/bad.out" 2>&1; rc=$?
if [ $rc -eq 0 ]; then echo "demo patched: NOT SHOWN"; else echo "demo patched: shown (exit $rc)"; fi
tail -5 "$s/bad.out"
