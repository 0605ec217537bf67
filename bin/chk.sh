#!/bin/bash
# type-check the harness crate
cd "$(dirname "$0")/../harness" && RUSTFLAGS="--cfg mollusc_verif -Awarnings" cargo +stable check --offline --target-dir ../build/check 2>&1 | grep -E "^(error|warning: unus)" -A12 | head -${1:-60}
