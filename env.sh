# Shared by every check: offline cargo, one build directory under /verif (git-ignored).
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never NO_COLOR=1 RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS RUST_BACKTRACE RUST_TEST_THREADS TERM
export CARGO_TARGET_DIR=/verif/target
