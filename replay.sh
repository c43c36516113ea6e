#!/bin/bash
# replay.sh REPLAY_FILE: rebuild from /repo's working tree and run the one recorded case.
R=$(realpath -- "${1:?replay file}")
cd "$(dirname "$0")" || exit 2
V=$PWD
. "$V/build_env.sh"
export VERIF_DIR=$V
ID=$(sed -n 's/^property: *//p' "$R" | head -n1)
bash "$V/build.sh" "$ID" || { echo "BUILD FAILED for $ID"; exit 2; }
exec "$V/target/harness/release/vharness" replay "$R"
