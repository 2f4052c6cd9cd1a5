#!/bin/bash
# run.sh <PROPERTY-ID> [--unit NAME] : run the check of one property against $VM_REPO (default /repo).
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export OMPI_MCA_btl=self OMPI_MCA_pml=ob1 OMPI_MCA_plm_rsh_agent= OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_ess_singleton_isolated=1     # a lone rank needs no daemon (starting one fails now and then)
export HOME=${HOME:-/root}
export PYTHONPATH=$here
cd "$here" || exit 3
exec /opt/venv/bin/python -m vm.main "$@"
