export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT=$VERIF CARGO_TARGET_DIR=$VERIF/work/target CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_JOBS RUSTFLAGS
