#!/bin/bash
# Compile the harness crate with the repository's crates and std to one LLVM
# module, cut the panic / formatting / hashing machinery, optimise.
# usage: build_ir.sh BUILD_DIR [LEVEL]   -> BUILD_DIR/h.ll
# LEVEL 0: everything; 1: without llvm-mapper; 2: without the guarded accessors too
set -eu
B=${1:?}
case ${2:-0} in
0) FEATURES= CFG="--cfg mollusc_verif" ;;
1) FEATURES="--no-default-features --features hooks" CFG="--cfg mollusc_verif" ;;
2) FEATURES="--no-default-features" CFG= ;;
esac
HERE=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export PATH="$HOME/.cargo/bin:/usr/local/bin:$PATH"
export RUSTFLAGS="-C no-prepopulate-passes -Zinline-mir=no -Zub-checks=no $CFG -Awarnings"
mkdir -p "$B"
# never trust mtimes: recompile the repository's crates and ours
rm -rf "$B"/ir/debug/build/vh "$B"/ir/debug/build/llvm-* "$B"/ir/debug/deps/vh-* "$B"/ir/debug/deps/*llvm_* "$B"/ir/debug/.fingerprint/vh-* "$B"/ir/debug/.fingerprint/llvm-* "$B"/ir/debug/incremental
(cd "$HERE/harness" && cargo rustc --offline --locked $FEATURES --lib --crate-type staticlib --target-dir "$B/ir" -- --emit=llvm-ir) > "$B/ir.log" 2>&1 || { tail -60 "$B/ir.log" >&2; exit 3; }
LL=$(find "$B/ir/debug" -name 'vh-*.ll' -printf '%T@ %p\n' | sort -rn | head -1 | cut -d' ' -f2-)
[ -n "$LL" ] || { echo "no IR produced" >&2; exit 3; }
LB=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
python3 "$HERE/bin/prep.py" "$LL" "$B/cut.ll" "$B/entries.txt"
"$LB/opt" -S -passes='internalize,globaldce' -internalize-public-api-file="$B/entries.txt" "$B/cut.ll" -o "$B/dce.ll"
"$LB/opt" -S -O2 -vectorize-loops=false -vectorize-slp=false "$B/dce.ll" -o "$B/h.ll"
