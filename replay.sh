#!/bin/bash
# usage: replay.sh <file written by a check>: reproduces the violation and prints its trace
. /opt/vp/env.sh
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 3
sim=sim
case $(grep -o '"family": "[^"]*"' "$f") in *network* | *crowd* | *calendar* | *genesis* | *governance*) sim=wsim ;; esac
./check.sh $sim build && exec "target/$sim/release/elusiv-$sim" replay "$f"
