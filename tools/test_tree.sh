#!/bin/bash
# bash /opt/vp/test.sh OUT.json
OUT=$(realpath -m "${1:?usage: test.sh OUT.json}")
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=${TREE}:/opt/vp/pyplugin
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
# peak itself is imported from ${TREE} (editable install); nothing to rebuild.
REPORT=$(mktemp -d)
cd ${TREE} || exit 1
/opt/venv/bin/python -m pytest -q -W ignore -p no:cacheprovider -p vp_isolate -n 8 \
    --timeout=300 --tb=short --continue-on-collection-errors \
    -o junit_family=xunit2 --junitxml="$REPORT/junit.xml" ${TREE}/tests ${TREE}/examples
# pytest that cannot start (conftest.py broken) leaves no report: nothing passed
if [ -f "$REPORT/junit.xml" ]; then
    python3 /opt/vp/results.py "$OUT" "junit:$REPORT/junit.xml"
else
    echo '{"passed": [], "failed": []}' > "$OUT"
fi
rm -rf "$REPORT"
