# Sourced by run.sh: offline toolchain environment.
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2025-03-27
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER= PROTOC=/usr/bin/protoc
export VERIF_DIR="${VERIF_DIR:-/verif}"
export CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUSTFLAGS
