#!/bin/bash
# Writes an overlay with yield points before the statements of the repository's packages.
set -u
cd "$VERIF_DIR/harness" || exit 2
go run -buildvcs=false ./tools/instrument "$1" "$REPO_DIR"
