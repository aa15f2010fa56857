#!/bin/bash
# development build
python3 /verif/build/gen.py && cd /verif/.build/ws && RUSTUP_TOOLCHAIN=nightly-2024-10-18 CARGO_TARGET_DIR=/verif/.build/target cargo build --offline --features vsim/macros 2>&1 | grep -E "^(error|warning: unused)" -A12 | head -${1:-80}
