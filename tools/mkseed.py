"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec with ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source run with the tree as cwd)"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = os.path.join(here, 'seeded', spec['ID'])
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp()
subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
for f, old, new in spec['EDITS']:
    p = os.path.join(w, 'r', f)
    s = open(p, encoding='utf-8').read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w', encoding='utf-8').write(s.replace(old, new))
diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
shutil.rmtree(w)
open(os.path.join(d, 'demo.py'), 'w').write('import sys, os, warnings\nsys.path.insert(0, os.getcwd())\nwarnings.simplefilter("ignore")\n' + spec['DEMO'].lstrip('\n'))
open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# Exit 0 if the behaviour is right, 1 if not. Run with the source tree as working directory.
scratch=$(mktemp -d) || exit 3
trap 'rm -rf -- "$scratch"' EXIT
mkdir "$scratch/data" "$scratch/out" "$scratch/tmp"
export XDG_DATA_HOME=$scratch/data OCELOT_OUTPUT=$scratch/out TMPDIR=$scratch/tmp PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
timeout 250 "$py" -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"
''')
json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
print('wrote', d)
