#!/bin/bash
# builds the engine and the harness crates
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p build evidence
(cd engine && CARGO_TARGET_DIR=../build/engine cargo build --release --offline)
for c in hcodec hmain; do
  [ -d $c ] && bash build_ir.sh $c || true
done
