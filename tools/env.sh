export HOME=/root LANG="${LANG:-C.UTF-8}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.97.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
TGT=$VERIF/target
WBG=/opt/wasm-bindgen/bin/wasm-bindgen
HASH=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | cat - "$VERIF"/harness/src/*.rs "$VERIF"/harness/Cargo.toml | sha256sum | cut -c1-32)
