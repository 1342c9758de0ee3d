# Build settings shared by every check.
export RUSTUP_TOOLCHAIN=1.81 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target RUSTFLAGS="--cfg invariant_verif -Awarnings"
