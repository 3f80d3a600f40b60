# Sourced by every script: the toolchain /repo is built with, offline, own target directory.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WORKSPACE_WRAPPER
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export RUSTC_WRAPPER="$VERIF_DIR/dst/rustc-wrapper.sh"
