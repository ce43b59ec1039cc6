#!/bin/bash
# Builds the wasm variants of the adapter from /repo's current working tree.
# usage: build.sh OUT variant...   (dev rel tu turel)
. "$(dirname "$0")/env.sh"
OUT=$1; shift
mkdir -p "$OUT" "$TGT"
one() {
  v=$1; case $v in
    dev) a=""; d=debug; t=d;; rel) a="--release"; d=release; t=d2;;
    tu) a="--features testutil"; d=debug; t=t;; turel) a="--release --features testutil"; d=release; t=t2;;
  esac
  td=$TGT/$t
  # never trust file times alone: rebuild the crate whenever its content differs from what was built last
  if [ "$(cat "$td/src.hash" 2>/dev/null)" != "$HASH" ]; then
    find "$td" -maxdepth 4 -path '*/.fingerprint/*' \( -name 'wasmtimer-*' -o -name 'simharness-*' \) -exec rm -rf {} + 2>/dev/null
  fi
  (cd "$VERIF/harness" && cargo build --offline --quiet --target wasm32-unknown-unknown --target-dir "$td" $a) >"$OUT/$v.log" 2>&1 || { cat "$OUT/$v.log"; return 1; }
  "$WBG" --target no-modules --no-typescript --out-dir "$OUT/$v" "$td/wasm32-unknown-unknown/$d/simharness.wasm" || return 1
  echo "$HASH" > "$td/src.hash"
}
pids=()
for v in "$@"; do one $v & pids+=($!); done
rc=0
for p in "${pids[@]}"; do wait $p || rc=1; done
exit $rc
