#!/bin/bash
# nothing to build ahead of time: checks compile what they need from /repo's current tree into a scratch folder
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -B -c "import numpy, scipy, skimage, joblib, numba, Cython, astropy"
