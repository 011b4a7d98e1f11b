#!/bin/bash
# check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--lane L] [--cases N]
# Builds the harness binary that decides PROPERTY from /repo's working tree and runs it.
# Exit 0: held; 1: violated (VIOLATION line printed); 3: could not build or run.
set -u
VDIR="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
export VERIF_DIR="$VDIR" VERIF_SEED="${VERIF_SEED:-1}" CARGO_TARGET_DIR="$VDIR/target" CARGO_NET_OFFLINE=true
bin="$(awk -v id="$id" '$1==id{print $2}' "$VDIR/bins.txt")"
[ -n "$bin" ] || { echo "no such property: $id" >&2; exit 3; }
bash "$VDIR/build.sh" "$bin" || exit 3
ulimit -c 0
exec "$CARGO_TARGET_DIR/debug/$bin" "$id" "$@"
