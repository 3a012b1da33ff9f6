#!/bin/bash
# usage: replay.sh PROPERTY PROOF REPLAYFILE : run the contract function natively (real code, ASan/UBSan) on the recorded inputs
cd "$(dirname "$0")" && exec python3-vt plv/replay.py "$@"
