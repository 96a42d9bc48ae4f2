#!/bin/bash
# Regenerates the committed baselines (structure of every function the specs were written against).
cd "$(dirname "$0")/.."
for f in simd simd,rayon scalar; do
  n=proofs/baseline_${f//,/_}.json
  extract/target/release/extract --out /tmp/bl.rs --map /tmp/bl.json --features $f --write-baseline $n || exit 1
done
rm -f /tmp/bl.rs /tmp/bl.json
