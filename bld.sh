#!/bin/bash
cd /verif/harness; export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
cargo rustc --release --lib -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp 2>&1 | grep -E "^error" -A9 
cargo build --release --bin replay --features native --target-dir target/native 2>&1 | grep -E "^error" -A9
