#!/bin/bash
# Builds the verifier into /verif/bin (ignored by git).
set -e
cd "$(dirname "$0")/govc"
mkdir -p ../bin
GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' go build -o ../bin/govc.$$ .
mv ../bin/govc.$$ ../bin/govc
