#!/bin/bash
# ck.sh P01 [substr]: proofs, short output
cd /verif; python3-vt engine/check.py "$@" 2>&1 | cut -c1-${W:-180} | grep -v "^$" | head -${N:-60}
