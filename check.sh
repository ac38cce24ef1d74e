#!/bin/bash
# bash check.sh C01 [quick|thorough]: decide one property against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
pid=${1:?usage: check.sh Cxx [quick|thorough]}
[ -n "$2" ] && export VERIF_TIER=$2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TORCH_DEVICE=cpu
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LANG=C.UTF-8
cfgdir=$(mktemp -d /tmp/verif_mpl_XXXXXX); export MPLCONFIGDIR=$cfgdir
trap 'rm -rf "$cfgdir"' EXIT
cd "$here/harness" || exit 2
/opt/venv/bin/python -W ignore "$(echo "$pid" | tr 'A-Z' 'a-z').py"
