#!/bin/bash
# check.sh <property> [quick|thorough]
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
/verif/build.sh > /verif/build.$$.log 2>&1 || { tail -30 /verif/build.$$.log; rm -f /verif/build.$$.log; echo "build failed"; exit 2; }
rm -f /verif/build.$$.log
exec /verif/build/bin/dst check "$1"
