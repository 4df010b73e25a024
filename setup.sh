#!/bin/bash
# Builds the analyser once and warms the build cache with the type information
# of the dependencies.
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
mkdir -p bin
(cd checker && GOFLAGS=-mod=mod go build -o ../bin/mutecheck .) || exit 1
./bin/mutecheck -repo /repo -fns > /dev/null
exit 0
