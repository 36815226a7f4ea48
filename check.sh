#!/bin/bash
# usage: check.sh PROPERTY
# Runs the check of one property against the current working tree of /repo.
cd "$(dirname "$0")" || exit 3
. ./env.sh
mkdir -p evidence
bin=$(mktemp -d) || exit 3
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/driver" ./cmd/driver || exit 3
"$bin/driver" check "$1"
exit $?
