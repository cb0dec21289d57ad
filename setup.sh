#!/bin/bash
# Builds the simulator and, from /repo's working tree, the systems under test (cached under build/).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replays
bash sim/build_osim.sh "$PWD/build"
bash sim/build_sut.sh "$PWD/build"
[ ! -e sim/rubysim.py ] || python3 sim/rubysim.py build "$PWD/build"
