#!/bin/bash
# build.sh [property]: builds the monitors (and, for C28 or without an argument, the command-line tool) from /repo's working tree, offline, outside /repo.
HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_HUSKY_DONT_INSTALL_HOOKS=1 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$HERE/harness/target
cd "$HERE/harness" || exit 1
# same dependency versions as the repository's own lock file
if [ -f /repo/Cargo.lock ]; then cp /repo/Cargo.lock Cargo.lock; else cp Cargo.lock.pinned Cargo.lock; fi
case "${1:-C28}" in
  C28) cargo build --offline --bin vmon --bin cargo-atelier || exit 1;;
  *)   cargo build --offline --bin vmon || exit 1;;
esac
