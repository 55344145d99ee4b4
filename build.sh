#!/bin/bash
# builds the harness against /repo's working tree: checked (overflow checks, debug assertions), release, and
# instrumented (checked plus coverage counters, for the coverage-guided search)
set -eu
cd "$(dirname "$0")/harness"
cargo build --offline --locked &
p=$!
RUSTC_WRAPPER=$PWD/cov-rustc.sh cargo build --offline --locked --features guided --target-dir target/guided &
q=$!
cargo build --offline --locked --release --target-dir target/rel
wait $p
wait $q
