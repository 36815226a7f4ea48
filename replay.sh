#!/bin/bash
# usage: replay.sh FILE
# Executes a recorded schedule against the current working tree of /repo.
file=$(realpath "$1") || exit 3
cd "$(dirname "$0")" || exit 3
. ./env.sh
bin=$(mktemp -d) || exit 3
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/driver" ./cmd/driver || exit 3
"$bin/driver" replay "$file"
exit $?
