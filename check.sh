#!/bin/bash
# Usage: check.sh <property id> [quick|thorough|replay FILE]
# Builds the check's program against /repo's current working tree and runs it.
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF_DIR/env.sh"
id="$1"; shift
lc=$(echo "$id" | tr 'A-Z' 'a-z')
mkdir -p "$VERIF_DIR/bin"
cd "$VERIF_DIR/harness" || exit 2
bin="$VERIF_DIR/bin/$lc.$$"
prep=$(mktemp -d) || exit 2
trap 'rm -rf "$bin" "$prep"' EXIT
extra=()
[ -n "${VERIF_OVERLAY:-}" ] && extra=(-overlay "$VERIF_OVERLAY")
if [ -x "$VERIF_DIR/harness/cmd/$lc/prepare.sh" ]; then
  "$VERIF_DIR/harness/cmd/$lc/prepare.sh" "$prep" || exit 2
  extra=(-overlay "$prep/overlay.json")
fi
go build -buildvcs=false "${extra[@]}" -o "$bin" "./cmd/$lc" || { echo "build of the check failed" >&2; exit 2; }
"$bin" "$@"
exit $?
