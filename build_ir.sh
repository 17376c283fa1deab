#!/bin/bash
# developer helper: rebuild IR
cd /verif/harness && RUSTUP_TOOLCHAIN=1.87.0 CARGO_TARGET_DIR=/verif/target/ir cargo rustc --offline --lib -- --emit=llvm-ir -C passes=globaldce 2>&1 | grep -E "^error|^warning: unused|Finished" -A6
