#!/bin/bash
# bash /opt/vp/test.sh OUT.json
OUT=$(realpath -m "${1:?usage: test.sh OUT.json}")
. /opt/vp/env.sh
cd /tmp/rw || exit 1
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
mkdir -p /tmp/rw/target/vp
LOG=/tmp/rw/target/vp/test.log
DOC=/tmp/rw/target/vp/doc.log
rm -f "$LOG" "$LOG.ids" "$DOC"
cargo test --workspace --no-fail-fast --offline --lib --bins --tests -- --test-threads 8 > "$LOG" 2>&1
tail -n 3 "$LOG"
cargo test --workspace --no-fail-fast --offline --doc -- --test-threads 8 > "$DOC" 2>&1
tail -n 3 "$DOC"
# binius_compute and binius_fast_compute both have a tests/layer.rs with the same test names:
# put the package in front of an integration test's binary. Its unit tests come just before.
awk '
/^ +Running unittests / { if (match($0, /deps\/[A-Za-z0-9_]+-/)) pkg = substr($0, RSTART + 5, RLENGTH - 6) }
/^ +Running tests\// { sub(/deps\//, "deps/" pkg ".") }
{ print }' "$LOG" > "$LOG.ids"
python3 /opt/vp/results.py "$OUT" "cargo:$LOG.ids" "cargo:$DOC"
