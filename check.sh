#!/bin/bash
# check.sh PROPERTY [quick|thorough]: analyse /repo's current source for one property.
# Exit 0: it holds on everything analysed. Exit 1 with a VIOLATION line: it does not,
# or the analysis could not decide.
cd "$(dirname "$0")" || exit 1
here=$PWD
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p "$here/evidence"
tmp=$(mktemp -d "${TMPDIR:-/tmp}/ninepcheck.XXXXXX") || { echo "VIOLATION property=$prop replay=none"; exit 1; }
trap 'rm -rf "$tmp"' EXIT
bin=$tmp/ninepcheck
export GOTOOLCHAIN=local GOTELEMETRY=off GOENV=off
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
if ! (cd "$here/tool" && env -u GOPATH GO111MODULE=on GOFLAGS=-mod=vendor GOWORK=off GOPROXY=off CGO_ENABLED=0 go build -o "$bin" .) >"$tmp/build.log" 2>&1; then
	cp "$tmp/build.log" "$here/evidence/$prop.violations.txt"
	cat "$tmp/build.log"
	echo "the analyser does not build"
	echo "VIOLATION property=$prop replay=$here/evidence/$prop.violations.txt"
	exit 1
fi
TMPDIR=$tmp "$bin" -p "$prop" -tier "$tier" -repo /repo -out "$here/evidence" -known "$here/known_findings.txt" >"$tmp/out" 2>"$tmp/err"
rc=$?
cat "$tmp/out"
if [ $rc -eq 0 ]; then exit 0; fi
if ! grep -q "^VIOLATION property=$prop " "$tmp/out"; then
	cp "$tmp/err" "$here/evidence/$prop.violations.txt"
	tail -5 "$tmp/err"
	echo "VIOLATION property=$prop replay=$here/evidence/$prop.violations.txt"
fi
exit 1
