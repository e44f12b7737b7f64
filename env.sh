export CARGO_TARGET_DIR=/verif/target RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Znext-solver=globally" CARGO_NET_OFFLINE=true
