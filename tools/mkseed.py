"""mkseed.py SPEC.py: creates seeded/<id>/ from a spec defining ID, PROP, EDITS=[(file, old, new[, count])], NEEDS, BREAKS, DEMO."""
import json, os, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = '/repo'
assert subprocess.run(['git', '-C', R, 'status', '--porcelain'], capture_output=True, text=True).stdout == ''
for e in ns['EDITS']:
    p = os.path.join(R, e[0])
    s = open(p, newline='').read()
    n = s.count(e[1])
    want = e[3] if len(e) > 3 else 1
    if n != want:
        subprocess.run(['git', '-C', R, 'checkout', '--', '.'])
        sys.exit("%s: %d occurrences in %s" % (ns['ID'], n, e[0]))
    open(p, 'w', newline='').write(s.replace(e[1], e[2]))
diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
subprocess.run(['git', '-C', R, 'checkout', '--', '.'])
d = '/verif/seeded/' + ns['ID']
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip())
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1
export PYTHONPATH="$PWD:$here"
T=$(mktemp -d); export MPLCONFIGDIR="$T/mpl" NUMBA_CACHE_DIR="$T/numba" HOME="$T" TMPDIR="$T"
/opt/venv/bin/python -W ignore "$here/demo.py"
rc=$?
rm -rf "$T"
exit $rc
''')
if ns.get('STUB'):
    subprocess.run(['cp', '-r', '/verif/mc/stubs/assimulo', d + '/'])
    subprocess.run(['rm', '-rf', d + '/assimulo/__pycache__'])
print(ns['ID'], len(diff.splitlines()))
