# additional settings of the instrumented build
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export RUSTFLAGS="-Ctarget-cpu=x86-64 -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"
export RUSTC_WRAPPER=$PWD/rustc-par.sh
