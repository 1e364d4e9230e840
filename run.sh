#!/bin/bash
# run.sh <PROPERTY> [quick|thorough]   decide one property on /repo's working tree
# run.sh replay <FILE>                 re-run one saved counterexample without the generator
# run.sh setup                         check that the tools this framework needs are there
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -m pbt.main "$@"
