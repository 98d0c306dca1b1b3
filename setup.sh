#!/bin/bash
# Builds the checker into /verif/bin (offline).
set -e
cd "$(dirname "$0")"
for f in /opt/vp/env.sh; do [ -f $f ] && . $f; done
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p bin evidence
cd checker
go build -o ../bin/checker .
