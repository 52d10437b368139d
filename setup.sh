#!/bin/bash
# Builds the analyser from the committed sources into /verif/bin (git-ignored).
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin
cd ocv
GOFLAGS="-mod=mod -buildvcs=false" go build -o ../bin/ocv .
