#!/bin/bash
# Builds main.rs (beside this file) against the repository in the current directory and runs it:
# exit 0 when the property holds for the demonstrated input, 1 when it does not.
set -u
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/seed-demo.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
{
  printf '[package]\nname = "seed_demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nserde_json = "1"\n'
  for c in core json smithy assembler describe query rdf; do printf 'atelier_%s = { path = "%s/atelier-%s" }\n' $c "$R" $c; done
} >"$T/Cargo.toml"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_HUSKY_DONT_INSTALL_HOOKS=1 RUSTC_WRAPPER= CARGO_TARGET_DIR="$T/target" CARGO_PROFILE_DEV_DEBUG=0
cd "$T" || exit 2
cargo build --offline >"$T/log" 2>&1 || { tail -30 "$T/log"; exit 2; }
timeout -k 5 60 "$T/target/debug/seed_demo"
RC=$?
echo "demo exit $RC"
exit $RC
