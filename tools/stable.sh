#!/bin/bash
# stable.sh COPY SCRATCH: runs the stable tests of the copy of the repository in SCRATCH, like /opt/vp/test.sh
export PIP_NO_INDEX=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONIOENCODING=utf-8 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
mkdir -p "$2/tests"; ln -sfn "$1/src" "$2/src"; cd "$2/tests" || exit 9
PYTHONPATH="$1/src" /opt/venv/bin/python /opt/vp/run_sections.py "$1/tests/tests.py" > "$2/lines.txt"
/opt/venv/bin/python - "$2/lines.txt" <<'PY'
import json, sys
st = json.load(open('/opt/vp/BASELINE.json'))['stable']
t = open(sys.argv[1]).read().split('\n')
bad = [s for s in st if 'PASS ' + s not in t]
print('failed:', bad)
sys.exit(bool(bad))
PY
