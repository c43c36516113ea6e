#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo's working tree and run one property.
cd "$(dirname "$0")" || exit 2
V=$PWD
ID=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
. "$V/build_env.sh"
export VERIF_DIR=$V VERIF_TIER=$TIER
bash "$V/build.sh" "$ID" || { echo "BUILD FAILED for $ID"; exit 2; }
exec "$V/target/harness/release/vharness" run "$ID" "$TIER"
