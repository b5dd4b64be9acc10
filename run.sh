#!/bin/bash
# run.sh <property> [quick|thorough]   decide one property
# run.sh replay <file>                 re-execute one recorded violation
# run.sh setup                         build the disk seam
# run.sh selftest [property...]        determinism of the simulator itself
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 3
lib="$here/build/iofault.so"
src="$here/dst/shim/iofault.c"
if [ ! -e "$lib" ] || [ "$src" -nt "$lib" ]; then
    mkdir -p "$here/build" || exit 3
    gcc -O1 -Wall -shared -fPIC -o "$lib.$$" "$src" -ldl && mv "$lib.$$" "$lib" || exit 3
fi
[ "$1" = setup ] && { echo "built $lib"; exit 0; }
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
scratch="$(mktemp -d "${TMPDIR:-/tmp}/dst.XXXXXXXX")" || exit 3
trap 'rm -rf -- "$scratch"' EXIT
export DST_SCRATCH="$scratch" MPLCONFIGDIR="$scratch/mpl" MPLBACKEND=Agg
export HOME="$scratch" TZ=UTC LC_ALL=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc"
export PYTHONHASHSEED="${DST_HASHSEED:-0}" PYTHONPATH="$here:${REPO:-/repo}/src"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMEXPR_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1 BLOSC_NTHREADS=1 HDF5_USE_FILE_LOCKING=FALSE
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY all_proxy no_proxy NO_PROXY
LD_PRELOAD="$lib" "$py" -m dst.runner "$@"
