#!/bin/bash
# seedtry.sh SEED_DIR [CHECK_IDS...]: try a planted bug in a scratch copy of
# /repo: demo without and with it, then the checks.  With TESTS=1 also run the
# repository's tests on the copy.
D=$(realpath "$1"); shift
W=$(mktemp -d /tmp/seed_XXXXXX)
cp -a /repo "$W/repo"
cd "$W/repo"
git checkout -q -- . 
bash "$D/demo.sh" > "$W/d0" 2>&1; echo "demo clean: $?"
git apply "$D/patch.diff" || echo "PATCH DOES NOT APPLY"
bash "$D/demo.sh" > "$W/d1" 2>&1; r=$?; echo "demo patched: $r"; tail -3 "$W/d1"
if [ -n "$TESTS" ]; then
  export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MALLOC_MMAP_THRESHOLD_=4294967296 MALLOC_TRIM_THRESHOLD_=8589934592 MALLOC_TOP_PAD_=67108864
  PYTHONPATH="$W/repo" /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --dist worksteal --timeout=600 --continue-on-collection-errors --ignore=tests/functional/test_wfsc_flc.py tests > "$W/t" 2>&1
  tail -4 "$W/t"
fi
for c in "$@"; do
  DST_REPO="$W/repo" DST_MIN_S=${DST_MIN_S:-20} timeout 900 python3 /verif/dst/main.py check $c > "$W/c" 2>&1; echo "$c: exit $?"; grep -E "signature|VIOLATION|HARNESS" "$W/c" | head -3
done
cd /; rm -rf "$W"
