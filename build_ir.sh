#!/bin/bash
# build_ir.sh CRATE: compiles a harness crate with /repo's current tree; leaves
# build/CRATE/CRATE.ll (whole program) and build/CRATE/release/CRATE (native, same code).
set -e
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
c=$1
export RUSTFLAGS='--cfg getrandom_backend="linux_getrandom"'
export CARGO_TARGET_DIR=$here/build/$c CARGO_INCREMENTAL=0
mkdir -p "$CARGO_TARGET_DIR"
# cargo compares time stamps only: rebuild the repository's crates when the contents changed
sum=$(cd /repo && find Cargo.toml src codec -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/ntex-amqp*
  rm -f "$CARGO_TARGET_DIR/repo.sum"
fi
# cargo does not track link arguments' contents: name the object after its source
o=$CARGO_TARGET_DIR/vpnative-$(sha256sum < "$here/vp/vpnative.c" | cut -c1-12).o
[ -f "$o" ] || gcc -O1 -c -o "$o" "$here/vp/vpnative.c"
cd "$here/$c"
cargo rustc --release --offline --bin "$c" -- --emit=llvm-ir,link -C link-arg="$o" -C link-arg=-rdynamic
ll=$(ls -t "$CARGO_TARGET_DIR"/release/deps/"$c"-*.ll 2>/dev/null | head -1)
if [ -z "$ll" ]; then
  touch src/main.rs
  cargo rustc --release --offline --bin "$c" -- --emit=llvm-ir,link -C link-arg="$o" -C link-arg=-rdynamic
  ll=$(ls -t "$CARGO_TARGET_DIR"/release/deps/"$c"-*.ll | head -1)
fi
cmp -s "$ll" "$CARGO_TARGET_DIR/$c.ll" || cp "$ll" "$CARGO_TARGET_DIR/$c.ll"
echo "$sum" > "$CARGO_TARGET_DIR/repo.sum"
