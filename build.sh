#!/bin/bash
# builds the simulator against /repo's current working tree
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
cd /verif/sim && cargo build --release --offline 2>&1
