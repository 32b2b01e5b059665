#!/bin/bash
# Builds the checker and warms the build cache for the native replay binaries.
cd /verif/engine || exit 0
source /verif/engine/env.sh
mkdir -p bin
go build -o bin/vsym ./cmd/vsym
exit 0
