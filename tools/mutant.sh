#!/bin/bash
# tools/mutant.sh <seeded id> [checks...]: confirm one planted bug in a scratch copy of /repo:
# the tests still pass, the demo tells the trees apart, the named checks (default: its property) report it.
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$id
D=$(mktemp -d /tmp/mutant-XXXXXX) || exit 1
trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1
cd "$D/repo" || exit 1
bash "$S/demo.sh" > "$D/demo0" 2>&1 || { echo "$id: demo fails on unchanged tree"; tail -5 "$D/demo0"; }
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash "$S/demo.sh" > "$D/demo1" 2>&1 && echo "$id: demo passes on changed tree"
if [ -z "$NOTESTS" ]; then
    PYTHONPATH="$D/repo" timeout 1500 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -n 4 tests --deselect tests/test_integration.py::test_qpd_regression > "$D/tests" 2>&1 \
      || PYTHONPATH="$D/repo" timeout 1500 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests --deselect tests/test_integration.py::test_qpd_regression > "$D/tests" 2>&1 || { echo "$id: TESTS FAIL"; tail -5 "$D/tests"; }
fi
props=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for p in $props; do
    VERIF_REPO="$D/repo" VERIF_EVIDENCE="$D/ev" timeout 900 bash "$V/check.sh" "$p" > "$D/out-$p" 2>&1
    rc=$?
    echo "$id $p exit=$rc $(grep -c VIOLATION "$D/out-$p") $(grep -m1 mismatch "$D/out-$p" | cut -c1-200)"
    [ $rc = 2 ] && tail -5 "$D/out-$p"
done
