#!/bin/bash
# run.sh <property-id>   -- entry point of every check (VERIF_SEED / VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 LANG=${LANG:-C.UTF-8} VERIF_HOME=$PWD
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export VERIF_CRASH_LOG=$PWD/replays/$1-crash.txt
mkdir -p replays; rm -f "$VERIF_CRASH_LOG"
/opt/venv/bin/python -W ignore lib/main.py "$@"
rc=$?
case $rc in
132|134|135|136|139)  # the interpreter itself was killed while it ran the code under test
  echo "the interpreter crashed (status $rc) with VERIF_SEED=$VERIF_SEED VERIF_TIER=$VERIF_TIER; stack in $VERIF_CRASH_LOG"
  echo "VIOLATION property=$1 replay=$VERIF_CRASH_LOG"
  exit 1;;
esac
exit $rc
