#!/bin/bash
# Builds the native thread simulator from /repo's current working tree, with the guarded seams on.
# usage: build_threads.sh variant...   (thr thrt)
. "$(dirname "$0")/env.sh"
export RUSTFLAGS="--cfg wasmtimer_sim"
mkdir -p "$VERIF/build" "$TGT"
HASH=$(cat "$VERIF"/threads/src/*.rs "$VERIF/threads/Cargo.toml" | sha256sum | cut -c1-16)$HASH
one() {
  v=$1; case $v in thr) a="";; thrt) a="--features testutil";; esac
  td=$TGT/$v
  if [ "$(cat "$td/src.hash" 2>/dev/null)" != "$HASH" ]; then
    find "$td" -maxdepth 4 -path '*/.fingerprint/*' \( -name 'wasmtimer-*' -o -name 'simthreads-*' \) -exec rm -rf {} + 2>/dev/null
  fi
  (cd "$VERIF/threads" && cargo build --offline --quiet --target-dir "$td" $a) >"$VERIF/build/$v.log" 2>&1 || {
    # The guarded imports might not cover every name in use: name the seams everywhere.
    S=$td/seam; mkdir -p "$S" && find "$S" -mindepth 1 -delete && cp -r "$VERIF/threads" "$S/threads" && mkdir "$S/repo" && cp -r /repo/src /repo/Cargo.toml "$S/repo/" || return 1
    sed -i "s#path = \"/repo\"#path = \"$S/repo\"#" "$S/threads/Cargo.toml"
    python3 "$VERIF/tools/seam.py" "$S/repo/src" || return 1
    (cd "$S/threads" && cargo build --offline --quiet --target-dir "$td" $a) >"$VERIF/build/$v.seam.log" 2>&1 || { cat "$VERIF/build/$v.log"; return 1; }
  }
  echo "$HASH" > "$td/src.hash"
}
pids=()
for v in "$@"; do one $v & pids+=($!); done
rc=0
for p in "${pids[@]}"; do wait $p || rc=1; done
exit $rc
