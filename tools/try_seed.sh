#!/bin/bash
# Usage: tools/try_seed.sh ID [CHECK...]   Confirm one planted bug in a scratch copy and run checks on it there.
# (default check: the property in meta.json)
id=$1; shift
here=$(dirname "$(dirname "$(readlink -f "$0")")")
dir=$here/seeded/$id
work=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf -- "$work"' EXIT
cp -a /repo "$work/repo"
export PYTHONDONTWRITEBYTECODE=1 XDG_DATA_HOME=$work/data TMPDIR=$work/tmp PYTHONHASHSEED=0 PYTHONPATH=$work/repo
mkdir "$work/data" "$work/tmp"
cd "$work/repo" || exit 2
bash "$dir/demo.sh" >"$work/clean.log" 2>&1; a=$?
git apply "$dir/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 2; }
bash "$dir/demo.sh" >"$work/bug.log" 2>&1; b=$?
if [ -z "$NOTEST" ]; then
pt() { /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 "$@"; }
pt --junitxml="$work/main.xml" >/dev/null 2>&1
pt --junitxml="$work/manual.xml" -o norecursedirs=venv tests/manual >/dev/null 2>&1
/usr/bin/python3 /opt/vp/results.py "$work/out.json" "junit:$work/main.xml" "junit:$work/manual.xml" >/dev/null
t=$(/usr/bin/python3 - "$work/out.json" <<'P'
import json, sys
r = json.load(open(sys.argv[1])); b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p = r['passed'] if 'passed' in r else [k for k, v in r.items() if v == 'passed']
m = sorted(b - set(p)); print('tests ok' if not m else 'TESTS FAIL %s' % m[:4])
P
)
fi
echo "$id: demo clean=$a bug=$b; $t"
[ "$a" = 0 ] || tail -5 "$work/clean.log"
[ "$b" != 0 ] || tail -5 "$work/bug.log"
unset PYTHONPATH
[ $# -gt 0 ] || set -- $(/usr/bin/python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
for c in "$@"; do
    cd "$here"
    EVIDENCE_DIR=$work VERIF_REPO=$work/repo ./check.sh "$c" >"$work/check.log" 2>&1; r=$?
    echo "$id: $c exit $r: $(grep -m1 -E 'VIOLATION' "$work/check.log" | cut -c1-200)"
    grep -m1 -A6 -i detail "$work/check.log" | cut -c1-300
done
