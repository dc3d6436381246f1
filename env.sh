export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export KV_DIR="$PWD"
export CARGO_TARGET_DIR=$KV_DIR/harness/target
unset KRYOPTIC_CONF KRYOPTIC_EC_POINT_ENCODING KRYOPTIC_TESTS_DEFAULT_DB CARGO_INCREMENTAL RUSTFLAGS
