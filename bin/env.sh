export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH"
export RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
