#!/bin/bash
# check.sh ID [--replay FILE]: rebuilds the harness against /repo's working tree and decides property ID.
# Exit 0: held on everything explored. 1: violated (VIOLATION line). Anything else: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID [--replay FILE]}
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR RUST_LOG PROPTEST_CASES
cd "$here/harness" || exit 2
mkdir -p target
build() {
    # Judge what the files hold, not when they were written.
    local sum
    sum=$(find /repo/Cargo.toml /repo/spop /repo/spoa -type f \( -name '*.rs' -o -name Cargo.toml \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$sum" != "$(cat target/.repo-sum 2>/dev/null)" ]; then
        cargo clean --offline -q -p haproxy-spop -p haproxy-spoa 2>/dev/null
    fi
    cargo build --offline -q >target/build.log 2>&1 || { grep -E '^error' -A12 target/build.log | head -60; return 1; }
    echo "$sum" >target/.repo-sum
}
exec 9>target/.lock
flock 9
build || { echo "ERROR: the harness does not build against /repo"; exit 2; }
if [ "${VERIF_TIER:-quick}" = thorough ] && [[ " C05 C06 C16 C21 " == *" $id "* ]]; then
    # Coverage-guided fuzzing on top of the generated cases; without a fuzzer those cases decide alone.
    sum=$(cat target/.repo-sum)
    if [ "$sum" != "$(cat ../fuzz/target/.repo-sum 2>/dev/null)" ]; then
        (cd ../fuzz && cargo clean --offline -q --release --target x86_64-unknown-linux-gnu -p haproxy-spop -p haproxy-spoa 2>/dev/null)
    fi
    if VH_FUZZ_BIN=$(../fuzz/build.sh); then
        export VH_FUZZ_BIN
        echo "$sum" >../fuzz/target/.repo-sum
    else
        unset VH_FUZZ_BIN
        echo "note: the fuzzer does not build here; generated cases only"
    fi
fi
flock -u 9
exec 9>&-
if [ "${2:-}" = --replay ]; then
    exec target/debug/vharness replay "$id" "$3"
fi
exec target/debug/vharness check "$id" --evidence "$here/evidence/$id.json" --replays "$here/replays" --known "$here/known_findings.json"
