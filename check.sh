#!/bin/bash
# usage: check.sh <simulator> <property|build> [options of the simulator]
# Builds the simulator against /repo's working tree, then searches.
. /opt/vp/env.sh
unset CARGO_INCREMENTAL
cd "$(dirname "$0")" || exit 3
root=$PWD
sim=$1
prop=$2
shift 2
export CARGO_TARGET_DIR=$root/target/$sim
mkdir -p "$CARGO_TARGET_DIR"
if ! cargo build --release --offline --quiet --manifest-path "$root/$sim/Cargo.toml" > "$CARGO_TARGET_DIR/build.log" 2>&1; then
    tail -40 "$CARGO_TARGET_DIR/build.log" >&2
    echo "cannot build the $sim simulator" >&2
    exit 3
fi
[ "$prop" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/elusiv-$sim" check "$prop" --root "$root" "$@"
