#!/bin/bash
# tryseed.sh <id> [property...]  validate one planted bug in a scratch copy, then
# run the named checks (default: the property it names) against that copy.
# Nothing in /repo is touched. TESTS=0 skips the test suite, CHECK=0 the checks.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
id="$1"; shift
dir="$here/seeded/$id"
base="$(mktemp -d /tmp/seed.XXXXXXXX)" || exit 3
trap 'rm -rf -- "$base"' EXIT
cp -a /repo "$base/repo" && cd "$base/repo" || exit 3
git checkout -q -- . 
py=/opt/venv/bin/python
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
cp -a "$dir" "$base/demo"; find "$base/demo" -name '*.diff' -o -name meta.json | xargs -r rm -f
(cd "$base/repo" && timeout 300 bash "$base/demo/demo.sh" >"$base/o1" 2>&1); clean=$?
git apply "$dir/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
(cd "$base/repo" && timeout 300 bash "$base/demo/demo.sh" >"$base/o2" 2>&1); bad=$?
echo "$id: demo clean=$clean patched=$bad :: $(tail -1 "$base/o2" | cut -c1-150)"
[ $clean = 0 ] || tail -5 "$base/o1"
if [ "${TESTS:-1}" = 1 ]; then
    (cd "$base/repo/tests" && PYTHONPATH="$base/repo/src" PYTHONHASHSEED=0 $py -m pytest -q -n 8 -p no:cacheprovider --timeout=300 \
        --continue-on-collection-errors --tb=no -o junit_family=xunit2 --junitxml="$base/j.xml" >/dev/null 2>&1)
    $py /opt/vp/results.py "$base/t.json" "junit:$base/j.xml" >/dev/null
    $py - "$base/t.json" <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))
names = b if isinstance(b, list) else b.get('stable') or b.get('passed') or next(v for v in b.values() if isinstance(v, list))
got = set(json.load(open(sys.argv[1]))['passed'])
lost = [n for n in names if n not in got]
print('   tests:', 'all stable pass' if not lost else f'LOST {len(lost)}: {lost[:3]}', len(names))
P
fi
if [ "${CHECK:-1}" = 1 ]; then
    [ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
    for p in "$@"; do
        REPO="$base/repo" bash "$here/run.sh" "$p" "${TIER:-quick}" >"$base/c" 2>&1; rc=$?
        n=$(grep -c '^VIOLATION' "$base/c")
        echo "   $p: rc=$rc violations=$n $(grep -m1 -B0 -E '^  [a-z-]+: ' "$base/c" | cut -c1-200)"
        [ $rc = 2 ] && tail -5 "$base/c" | cut -c1-400
    done
fi
exit 0
