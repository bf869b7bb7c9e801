#!/bin/bash
# builds the framework from the committed files (offline)
set -e
cd "$(dirname "$0")/.."
python3-vt - <<'P'
import sys; sys.path.insert(0, "engine")
import harness, main
harness.ensure_irdump(); main.ensure_nx(); print("framework built")
P
