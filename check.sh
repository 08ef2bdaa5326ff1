#!/bin/bash
# usage: check.sh PROP   (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" && exec python3 -B dst/run.py "$@"
