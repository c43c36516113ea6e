export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true PYO3_PYTHON=/usr/bin/python3.12
export PATH=$PATH:/root/.cargo/bin:/usr/local/cargo/bin
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
