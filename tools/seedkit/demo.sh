#!/bin/bash
# Run with cwd = the repository: exits 0 if the demonstrated behaviour is right, non-zero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d /tmp/seeddemo.XXXXXX) || exit 9
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
cp "$here/util.rs" "$dir/src/util.rs"
cp "$here/Cargo.lock.demo" "$dir/Cargo.lock"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.demo" >"$dir/Cargo.toml"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target"
export RUSTFLAGS="--cfg tokio_unstable --cfg tracing_unstable --cfg reqwest_unstable"
cd "$dir" || exit 9
cargo build --offline -q || { echo "the demonstration does not build"; exit 8; }
timeout 60 "$dir/target/debug/demo"
