#!/bin/bash
# Build the harness (and, with it, the libraries of /repo) from the current sources
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
mkdir -p target
exec 9>target/.lock
flock 9
# cargo goes by modification times; don't rely on those for sources that may have been swapped
hash=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name Cargo.toml -o -name Cargo.lock \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$hash" != "$(cat target/.repo-hash 2>/dev/null)" ]; then
  rm -f target/.repo-hash
  [ -d target/tool ] && (cd ../tool && CARGO_TARGET_DIR=../harness/target/tool cargo clean --offline -q -p relaxng-syntax -p relaxng-model -p relaxng-validator -p rng-tool >/dev/null 2>&1)
  [ -d target/debug ] && cargo clean --offline -q -p relaxng-syntax -p relaxng-model -p relaxng-validator >/dev/null 2>&1
fi
cargo build --offline -q 2>target/build.log 9>&- || { tail -40 target/build.log; exit 1; }
[ "$1" != C14 ] || (cd ../tool && CARGO_TARGET_DIR=../harness/target/tool cargo build --offline -q 2>../harness/target/build-tool.log 9>&-) || { tail -40 target/build-tool.log; exit 1; }
echo "$hash" > target/.repo-hash
