#!/bin/bash
# Builds every check program once, so that the build cache is warm.
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF_DIR/env.sh"
cd "$VERIF_DIR/harness" || exit 1
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
go build -buildvcs=false -o "$tmp/" ./... || exit 1
exit 0
