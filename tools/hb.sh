#!/bin/bash
# dev: build one harness binary, then run it;  hb.sh c05 SECS
cd /verif/harness && python3 ../tools/mkws.py /repo ../build/ws ../tools/repo.Cargo.lock && CARGO_TARGET_DIR=/verif/build/target-harness cargo +stable build --offline -q --bin $1 2>&1 | grep -A12 "^error" | head -60; bash /verif/tools/h.sh "$@"
