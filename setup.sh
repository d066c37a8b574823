#!/bin/bash
# builds the compiler driver and extracts the facts of /repo's current tree once
set -e
cd "$(dirname "$0")"
python3 engine/extract.py --driver
