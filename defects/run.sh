#!/bin/bash
# usage: run.sh TREE   runs the defect demonstrations against a tree (default /repo)
T=${1:-/repo}; D=$(cd "$(dirname "$0")" && pwd); S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
mkdir -p $S/gp/src/github.com/Harvey-OS && ln -s "$T" $S/gp/src/github.com/Harvey-OS/ninep
R=$S/gp/src/github.com/Harvey-OS/ninep
echo "{\"Replace\":{\"$R/protocol/defects_verif_test.go\":\"$D/protocol_defects_test.go\",\"$R/filesystem/defects_verif_test.go\":\"$D/filesystem_defects_test.go\",\"$R/filesystem/atime_verif_test.go\":\"$D/atime_defects_test.go\"}}" > $S/o.json
cd $R
for p in protocol filesystem; do
for t in $(grep -ho 'func TestDefect[A-Za-z]*' $D/${p}_defects_test.go | cut -c6-); do
  if GO111MODULE=off GOPATH=$S/gp go test -vet=off -overlay $S/o.json -run "^$t\$" ./$p >$S/out 2>&1 && ! grep -q "no tests to run" $S/out; then echo "ok   $p $t"; else echo "FAIL $p $t: $(grep -m1 -E 'panic:|_test.go|undefined|no test' $S/out)"; fi
done; done
