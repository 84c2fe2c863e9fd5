#!/bin/bash
# usage: check.sh <property id> | build
# Builds the harness against /repo's working tree and runs one check.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2, 3: no answer (build or harness error)
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUST_BACKTRACE PROPTEST_CASES PROPTEST_RNG_SEED PROPTEST_MAX_SHRINK_ITERS
mkdir -p target evidence replays
(cd harness && cargo build --profile plain --offline --locked) >target/build-plain.log 2>&1 &
if ! (cd harness && cargo build --release --offline --locked) >target/build.log 2>&1; then
    tail -40 target/build.log >&2
    wait
    echo "check.sh: the harness does not build against /repo" >&2
    exit 2
fi
if ! wait $!; then
    tail -40 target/build-plain.log >&2
    echo "check.sh: the harness does not build against /repo without debug assertions" >&2
    exit 2
fi
[ "$1" = build ] && exit 0
exec target/release/hrcheck run "$1"
