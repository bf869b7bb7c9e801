#!/bin/bash
# nt.sh P17 secs [seed]
cd /verif; P=$1; p=${1,,}
python3-vt - <<PY
import sys; sys.path.insert(0,"/verif/engine"); import main,harness as H, os
os.makedirs(main.REPL,exist_ok=True)
try: print(main.build_native("$P",["own"]))
except H.CompileError as e: print(e); sys.exit(1)
PY
[ $? = 0 ] || exit 1
/verif/work/$P.native/scen_own --prop $P --time ${2:-5} --seed ${3:-1} --out /tmp/rep.$P ${4:+--only $4}; rc=$?
[ $rc = 1 ] && /verif/work/$P.native/scen_own --replay /tmp/rep.$P
exit $rc
