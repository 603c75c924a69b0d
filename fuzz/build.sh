#!/bin/bash
# Builds the fuzzer against /repo's working tree and prints its path.
cd "$(dirname "$0")" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
export RUSTFLAGS="--cfg fuzzing --cfg tokio_unstable --cfg tracing_unstable -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares -Clink-dead-code"
mkdir -p target
cargo build --offline --release -q --target x86_64-unknown-linux-gnu >target/build.log 2>&1 || { tail -30 target/build.log >&2; exit 1; }
echo "$PWD/target/x86_64-unknown-linux-gnu/release/vfuzz"
