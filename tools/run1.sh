#!/bin/sh
# dev helper: run1.sh pkg Cxx [extra go test args]
cd /verif/harness || exit 1
pkg=$1; id=$2; shift 2
mkdir -p /tmp/o; VERIF_OUT=/tmp/o VERIF_SEED=${VERIF_SEED:-1} VERIF_KNOWN=/verif/known_findings.json GOFLAGS=-mod=mod go test ./$pkg -run "^Test$id\$" -count=1 -timeout 20m -parallel 96 "$@"
