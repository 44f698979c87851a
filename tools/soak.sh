#!/bin/bash
# development helper: build and soak
. /verif/tools/env.sh
cd /verif/sim && cargo build --release --offline 2>&1 | grep -E "^error" -A9 | head -60
timeout ${T:-600} $CARGO_TARGET_DIR/release/sim soak $1 $2 $3 > /tmp/soak.txt 2>&1
head -1 /tmp/soak.txt | cut -c1-300;  grep -E "^ *[0-9]+ C|DIED" /tmp/soak.txt
