#!/bin/bash
# Builds what the checks share; each check also builds on demand from /repo's current tree.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD/lib" PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence build
python3 -c 'import vf; print(vf.gkc_bin(), vf.gkc_bison())'
