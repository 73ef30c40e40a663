#!/bin/bash
# Runs /repo's own tests of the crates parser and caret (27 tests; they need the
# git dependency chumsky, so /opt/vp/test.sh does not run them) against the
# stand-in for chumsky in harness/chumsky.  Not a check: it validates the stand-in.
set -e
cd "$(dirname "$0")/../harness"
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$(pwd)/../.build/target}"
export RUSTUP_TOOLCHAIN=1.85.1 RUSTFLAGS="--cfg aftermath_verif -Awarnings"
exec cargo test --offline -q -p hparser -p heditor
