#!/bin/bash
# Builds the analyser once, to see that it builds here; check.sh builds its own copy.
cd "$(dirname "$0")/tool" || exit 1
export GOTOOLCHAIN=local GOTELEMETRY=off GOENV=off
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
exec env -u GOPATH GO111MODULE=on GOFLAGS=-mod=vendor GOWORK=off GOPROXY=off CGO_ENABLED=0 go build -o /dev/null .
