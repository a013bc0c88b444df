#!/bin/sh
# nothing to build: the analyser is plain Python and re-reads /repo's source on every run
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 python3-vt -c "import psa.interp, psa.equality, numpy; print('analyser loads')"
