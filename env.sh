# build environment of the harness; sourced by check.sh
export VERIF_DIR="${VERIF_DIR:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export RUSTFLAGS='--cfg zok_verif -Awarnings'
export CARGO_TARGET_DIR="$VERIF_DIR/target"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
