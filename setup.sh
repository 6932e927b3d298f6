#!/bin/bash
# Nothing to compile: checks the interpreter and that the framework imports.
cd "$(dirname "$0")" || exit 1
export HOME=/root PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
mkdir -p evidence
/opt/venv/bin/python -W ignore -c "import numpy, scipy, cv2, pyproj, shapely, sklearn, skimage; from osgeo import gdal; import rv.core; print('framework ready')"
