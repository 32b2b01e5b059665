#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the symbolic checker if needed and decides one property against /repo.
cd /verif/engine || exit 0
source /verif/engine/env.sh
if [ ! -x bin/vsym ] || [ -n "$(find . -name '*.go' -newer bin/vsym -print -quit)" ]; then
	mkdir -p bin
	if ! go build -o bin/vsym ./cmd/vsym; then
		echo "INCONCLUSIVE property=$1 the checker does not build"
		exit 0
	fi
fi
exec bin/vsym check -property "$1" -tier "${2:-quick}"
