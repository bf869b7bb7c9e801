#!/bin/bash
# ckp.sh P06 secs [substr..]: proofs in parallel, short output (env N lines, W width, L lines per failure)
cd /verif; P=$1; T=${2:-300}; shift 2; timeout $T python3-vt engine/main.py $P proofs "$@" 2>&1 | cut -c1-${W:-170} | head -${N:-40}
