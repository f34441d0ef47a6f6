export HOME=/root PATH=/root/.cargo/bin:$PATH
unset RUSTFLAGS CARGO_BUILD_TARGET
export RUSTUP_TOOLCHAIN=1.85 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)/target"
