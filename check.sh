#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 3
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec python3-vt plv/check.py "$1"
