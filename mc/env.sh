# build settings of the machinery (no network, no user cargo configuration, stable code generation)
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTFLAGS=-Ctarget-cpu=x86-64
