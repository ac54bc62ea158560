#!/bin/bash
# builds the analysis driver and extracts the facts once (every check does this again when its inputs changed)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD/engine" PYTHONDONTWRITEBYTECODE=1
python3 -m xv.build >/dev/null && echo ready
