#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=$PWD/src:/opt/vp OMP_NUM_THREADS=1 PYTHONHASHSEED=0 MPLBACKEND=Agg exec /opt/venv/bin/python -B -W ignore "$D/demo.py"
