#!/bin/bash
# builds the extractor and the search programs; every check also builds what it finds missing
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER=
unset RUSTFLAGS
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
(cd tool/vx && CARGO_TARGET_DIR=../../build/vx cargo build --offline --release --quiet) || exit 1
replayq/prep.sh "$PWD/build/smtp-queue" || exit 1
for d in replay replayq; do
  [ -d $d ] && { (cd $d && CARGO_TARGET_DIR=../build/$d cargo build --offline --quiet 2>/dev/null) || exit 1; }
done
exit 0
