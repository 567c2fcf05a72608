#!/bin/bash
# Pre-builds every area crate (verifier code generation and native replay binary).
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
for a in areas/*/; do
  a=$(basename "$a")
  ( cd "areas/$a" && timeout 600 cargo kani --lib --target-dir ../../.build/kani --only-codegen -Z stubbing >/dev/null 2>&1
    timeout 600 cargo build --offline -q --bin replay --target-dir "../../.build/native/$a" >/dev/null 2>&1 ) || true
done
exit 0
