#!/bin/bash
# suttest.sh DIR: runs the repository's tests on DIR/repo; exit 0 if all 804 pass
d=${1:?}
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONPATH=$d/repo PYTHONHASHSEED=0
unset PYTEST_ADDOPTS RKSV_DEP_CHUNKSIZE RKSV_STATE_RECEIPT_IDS RKSV_TEST_SEED
cd "$d/repo" || exit 1
/opt/venv/bin/python "$d/driver/check_sources.py" >/dev/null || exit 1
timeout -k 10 400 /opt/venv/bin/python -m pytest -q -W ignore -c "$d/driver/pytest.ini" --rootdir="$d/driver" \
    -p no:cacheprovider -n ${N:-8} --timeout=60 --tb=no -x "$d/driver" >"$d/test.log" 2>&1
grep -q '804 passed' "$d/test.log" && ! grep -q failed "$d/test.log"
