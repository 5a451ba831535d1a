#!/bin/bash
# Builds the checker from the committed sources; offline.
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
mkdir -p bin evidence
cd checker
go build -o ../bin/ggverif.tmp.$$ .
mv ../bin/ggverif.tmp.$$ ../bin/ggverif
