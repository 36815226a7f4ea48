#!/bin/bash
# Builds the simulator once, which also warms the build cache.
cd "$(dirname "$0")" || exit 3
. ./env.sh
mkdir -p evidence
bin=$(mktemp -d) || exit 3
trap 'rm -rf "$bin"' EXIT
go vet ./rt ./simsync ./instr ./sim ./cmd/driver || exit 3
go build -o "$bin/driver" ./cmd/driver || exit 3
"$bin/driver" build "$bin"
