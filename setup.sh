#!/bin/bash
# Builds the symbolic executor (vendored dependencies, no network).
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p bin work evidence
cd engine
export GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off
go build -o ../bin/symgo.new .
mv ../bin/symgo.new ../bin/symgo
