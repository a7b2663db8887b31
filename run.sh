#!/bin/bash
# bash run.sh <PROPERTY> [quick|thorough]   - decide one property on /repo's current working tree
# bash run.sh --replay <file.json>          - re-run one recorded counterexample
# bash run.sh --build                       - (re)build the extensions only
HERE=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$HERE:/repo/src"
cd "$HERE" || exit 1
exec "${PY:-/opt/venv/bin/python}" -m fsmc.main "$@"
