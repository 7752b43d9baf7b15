#!/bin/bash
# Builds the simulator against /repo's working tree, plain and instrumented.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=$PWD/wrap.sh
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTFLAGS=
unset CARGO_TARGET_DIR CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
python3 ../gen_ops.py /repo inst/src/ops.rs ../ops_baseline.txt || exit 2
mkdir -p target
# Cargo compares times; a tree with old times must be rebuilt all the same.
h=$(cat Cargo.lock Cargo.toml wrap.sh <(cd /repo && find src Cargo.toml -type f ! -name '*.py' ! -name '*.jl' -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat target/hash 2>/dev/null)" != "$h" ]; then
    rm -rf target/{plain,instr}/release/.fingerprint/{polymers,inst,dst}-*
fi
rm -f target/hash
INSTR= cargo build --release --offline --target-dir target/plain > target/plain.log 2>&1 &
p=$!
INSTR=1 cargo build --release --offline --target-dir target/instr > target/instr.log 2>&1; b=$?
wait $p; a=$?
if [ $a != 0 ] || [ $b != 0 ]; then
    grep -hE -A6 '^error' target/plain.log target/instr.log | head -60
    exit 2
fi
echo "$h" > target/hash
