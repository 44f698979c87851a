#!/bin/bash
# build the simulator and every dependency from the committed files and the local cargo cache
cd "$(dirname "$0")" || exit 3
. ./tools/env.sh
mkdir -p work evidence
cd sim && cargo build --release --offline
