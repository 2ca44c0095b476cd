#!/bin/bash
# check.sh <property> [quick|thorough]: build the monitor against /repo's working tree, and run the check
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
./build.sh "$1" || { echo "error of the check: the harness does not build"; exit 2; }
exec harness/target/debug/rngmon check "$1" ${2:+"$2"}
