#!/bin/bash
# build.sh BIN...   builds harness packages offline from /repo's working tree.
set -u
VDIR="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$VDIR/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings" CARGO_TERM_COLOR=never
mkdir -p "$CARGO_TARGET_DIR"
# Cargo decides by mtime what to rebuild; a tree restored with old mtimes would look fresh.  Decide by content.
now="$(cd /repo && find crates -type f \( -name '*.rs' -o -name Cargo.toml -o -name '*.trb' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
old="$(cat "$CARGO_TARGET_DIR/repo.sha" 2>/dev/null)"
if [ "$now" != "$old" ]; then
  for c in trunk-ir trunk-ir-macros tribute-core tribute-ir tribute-passes tribute-rc tribute-runtime trunk-ir-cranelift-backend trunk-ir-wasm-backend tribute-front; do
    find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 -type d -name "$c-[0-9a-f]*" -exec rm -r {} + 2>/dev/null
  done
fi
pk=(); for b in "$@"; do pk+=(-p "$b"); done
log="$CARGO_TARGET_DIR/build-$$.log"
if ! (cd "$VDIR/harness" && cargo build -q --offline "${pk[@]}") >"$log" 2>&1; then
  tail -40 "$log" >&2; rm -f "$log"; echo "harness build failed" >&2; exit 3
fi
rm -f "$log"
echo "$now" > "$CARGO_TARGET_DIR/repo.sha"
