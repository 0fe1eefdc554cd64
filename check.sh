#!/bin/bash
# check.sh <check|replay|one|plan|digests> ARGS   -- runs the simulator on /repo's working tree
cd "$(dirname "$0")" || exit 2
SO="$PWD/build/simdisk.so"
if [ ! -e "$SO" ] || [ sim/simdisk.c -nt "$SO" ]; then
  mkdir -p build
  gcc -O2 -Wall -shared -fPIC -o "$SO.$$" sim/simdisk.c -ldl -lpthread || exit 2
  mv "$SO.$$" "$SO" || exit 2
fi
export PYTHONHASHSEED="${SIM_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO/src:$PWD" HDF5_USE_FILE_LOCKING=TRUE
[ "$1" = build ] && exit 0
unset LD_PRELOAD PYTHONSTARTUP
exec env LD_PRELOAD="$SO" /opt/venv/bin/python -m sim "$@"
