#!/bin/bash
# build the engine
cd "$(dirname "$0")/../engine" && cargo +stable build --release --offline --target-dir ../build/engine 2>&1 | grep -E "^error|warning: unused|panicked" -A6; true
