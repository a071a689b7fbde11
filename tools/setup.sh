#!/bin/bash
# builds the extractor, the mirror, the expansions and the harness once (checks rebuild what they need)
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence
python3 - <<'P' || exit 1
import sys; sys.path.insert(0, "tools")
import vlib
vlib.build_vx()
vlib.expand(["algebra", "lattice", "fhe_core", "zkfhe", "vfields"])
P
(cd harness && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../build/target-harness cargo +stable build --offline -q 2>/dev/null)
exit 0
