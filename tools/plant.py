"""Plants a bug: python3 tools/plant.py SPEC.py ... [--check]   (development tool, no check uses it)

A spec sets ID, PROPERTY, FILE, EDITS=[(old, new)] or [(file, old, new)], DEMO (python source), NEEDS, BREAKS. The bug is kept
under /verif/seeded/ID only if it changes lines of the original repository, applies to /repo's HEAD, builds, passes the stable tests,
and the demonstration tells it from the unchanged tree. Everything happens in a copy of /repo.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
REPO, SEEDED = '/repo', '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0: behaves, 1: broken
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
'''
BASE = '32efdff'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tests(copy):
    """The names of the tests that pass in the copy."""
    x = os.path.join(copy, 'junit.xml')
    sh('PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH=%s '
       '/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --randomly-seed=0 '
       '--randomly-dont-reorganize --ignore=test_DARMInstruction.py --ignore=test_instructionModifier.py '
       '--ignore=test_instructionPartFrequencyChange.py --ignore=test_instructionPartFrequencyCounter.py '
       '-o junit_family=xunit2 --junitxml=%s' % (copy, x), cwd=os.path.join(copy, 'tests'))
    ok = set()
    for t in ET.parse(x).iter('testcase'):
        if not [c for c in t if c.tag in ('failure', 'error', 'skipped')]:
            ok.add((t.get('classname'), t.get('name')))
    return ok


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(SEEDED, g['ID'])
    copy = tempfile.mkdtemp(prefix='plant')
    try:
        sh('cp -a %s/. %s/ && rm -f %s/tests/data/data.sol && git -C %s checkout -- .' % (REPO, copy, copy, copy))
        before = tests(copy)
        for e in g['EDITS']:
            f, old, new = e if len(e) == 3 else (g['FILE'],) + tuple(e)
            p = os.path.join(copy, f)
            s = open(p, newline='').read()
            if '\r\n' in s and '\r\n' not in old:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (g['ID'], 'pattern occurs %d times' % s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', copy, 'diff'], capture_output=True).stdout
        base, ours = {}, []
        for l in diff.decode().split('\n'):
            if l.startswith('--- a/'):
                f = l[6:]
                base[f] = sh('git -C /repo show %s:%s' % (BASE, f)).stdout.split('\n')
            elif l.startswith('-') and not l.startswith('---'):
                if l[1:].rstrip('\r') not in [b.rstrip('\r') for b in base[f]]:
                    ours.append(l)
        assert not ours, (g['ID'], 'not original lines', ours)
        work = tempfile.mkdtemp(prefix='plantd')
        open(work + '/patch.diff', 'wb').write(diff)
        open(work + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(work + '/demo.sh', 0o755)
        open(work + '/demo.py', 'w').write(g['DEMO'].lstrip('\n'))
        json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']),
                  open(work + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % work, cwd=REPO)
        r = sh('bash %s/demo.sh' % work, cwd=copy)
        missing = before - tests(copy)
        ok = r0.returncode == 0 and r.returncode != 0 and not missing
        print(g['ID'], 'KEPT' if ok else 'DROPPED', '' if r0.returncode == 0 else 'demo fails on the original: ' + (r0.stdout + r0.stderr)[-500:],
              'missing tests %s' % sorted(missing) if missing else '', 'demo with the patch %d:' % r.returncode,
              (r.stdout + r.stderr).strip().split('\n')[-1][:150])
        if ok:
            if os.path.isdir(d):
                shutil.rmtree(d)
            shutil.copytree(work, d)
        shutil.rmtree(work)
        if '--check' in sys.argv and ok:
            c = sh('cd /verif && SX_REPO=%s python3-vt run_check.py %s quick | tail -3' % (copy, g['PROPERTY']))
            print('   check:', c.stdout.strip()[-400:])
    finally:
        shutil.rmtree(copy)
    sys.stdout.flush()


for s in sys.argv[1:]:
    if s.startswith('--'):
        continue
    try:
        main(s)
    except AssertionError as e:
        print(s, e)
