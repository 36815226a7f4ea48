#!/bin/bash
# usage: determinism.sh [RUNS]
# Executes the first RUNS runs of every property in three processes with different
# garbage collector settings, and once more from each recorded schedule; all must agree.
cd "$(dirname "$0")" || exit 3
. ./env.sh
bin=$(mktemp -d) || exit 3
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/driver" ./cmd/driver || exit 3
rc=0
for i in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19; do
	"$bin/driver" determinism C$i "${1:-300}" || rc=1
done
exit $rc
