#!/bin/bash
# check.sh <property id> [quick|thorough]: build the simulator against /repo's working tree and decide one property
cd "$(dirname "$0")" || exit 3
. ./tools/env.sh
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p work evidence
if ! (cd sim && cargo build --release --offline) > work/build.$1.log 2>&1; then
  tail -40 work/build.$1.log >&2
  echo "the simulator does not build against /repo" >&2
  exit 3
fi
exec "$CARGO_TARGET_DIR/release/sim" check "$1" "$tier"
