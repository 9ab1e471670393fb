#!/bin/bash
# Builds the MIR dumper, the dependencies' MIR and the native harness. Every check can also do this by itself.
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence
./dump.sh "$PWD/.build/setup.json" || exit 1
for t in codec min mins minq minqs mincodec owner ownercodec counter countercodec store; do
  ./dump.sh "$PWD/.build/setup.json" $t > /dev/null 2>&1 || echo "extraction $t failed"
done
rm -f .build/setup.json .build/setup.json.log
export CARGO_TARGET_DIR="$PWD/.build/native"
(cd native && cargo build --offline -q --no-default-features --features owner && cargo build --offline -q --no-default-features --features counter; cargo build --offline -q) || true
exit 0
