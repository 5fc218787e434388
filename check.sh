#!/bin/sh
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec python3-vt -m sx.run "$1" "${2:-${VERIF_TIER:-quick}}" 
