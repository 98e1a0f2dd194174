#!/bin/bash
# run.sh <property-id> [--tier quick|thorough] [--replay FILE]
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C LANG=C PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/veriftools/pyvenv/bin/python "$(dirname "$(realpath "$0")")/lib/run.py" "$@"
