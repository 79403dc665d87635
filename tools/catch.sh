#!/bin/bash
# catch.sh PATCH PROPERTY... : runs checks (quick tier) against a scratch copy of
# /repo with PATCH applied. For development; the registered checks use /repo.
p=$(readlink -f "$1"); shift
here=$(cd "$(dirname "$0")/.." && pwd)
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS=-mod=mod
s=$(mktemp -d /tmp/catch.XXXXXX) || exit 1
trap 'rm -rf "${s:?}"' EXIT
cp -a /repo "$s/repo" && cp -r "$here/harness" "$s/h" || exit 1
git -C "$s/repo" checkout -q -- . && git -C "$s/repo" apply "$p" || exit 1
sed -i "s#=> /repo#=> $s/repo#" "$s/h/go.mod"
cd "$s/h" && go build -race -o "$s/bin" . || exit 1
for id in "$@"; do
	out=$("$s/bin" -prop "$id" -tier "${TIER:-quick}" -seed "${VERIF_SEED:-1}" -evidence "$s/ev" -known "$here/known_findings.txt" 2>&1); rc=$?
	echo "$(basename "$(dirname "$p")")/$id: exit $rc: $(echo "$out" | grep -v '^VIOLATION' | head -1 | cut -c1-300)"
done
