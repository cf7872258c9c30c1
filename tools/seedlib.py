"""Creates and confirms a planted bug in a scratch copy (never in /repo)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUB = open(os.path.join(HERE, 'oracle', 'demo_stub.py')).read()


def seed(sid, prop, edits, demo, needs, breaks, confirm=True):
    """edits: [(file, old, new)]; demo: python source, raises when broken"""
    d = os.path.join(HERE, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        w = os.path.join(tmp, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        clean = os.path.join(tmp, 'clean')
        subprocess.check_call(['git', 'clone', '-q', '/repo', clean])
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w, 'diff'])
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'stub.py'), 'w').write(STUB)
        open(os.path.join(d, 'demo.py'), 'w').write(
            'import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
            'import stub\n' + demo)
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# cwd: the repository\nD="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC\n'
            'exec /opt/venv/bin/python "$D/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if confirm:
            a = run(d, clean)
            b = run(d, w)
            t = stable_tests(w)
            print(sid, prop, 'demo clean rc', a[0], 'demo patched rc', b[0], 'tests', t,
                  'OK' if a[0] == 0 and b[0] != 0 and t else 'BAD')
            if a[0] != 0:
                print(a[1][-600:])
            if b[0] != 0:
                print('   ', b[1].strip().splitlines()[-1][:200])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(d, repo):
    p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=repo, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode(errors='replace')


def stable_tests(w):
    env = dict(os.environ, PYTHONPATH='', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', TZ='UTC')
    code = ('import sys; sys.path.insert(0, %r); import os; os.chdir(%r); sys.path.insert(0, os.getcwd())\n'
            'import stub\nimport unittest\n'
            'from nilmtk.tests import test_timeframe as t\n'
            'r = unittest.TextTestRunner(verbosity=0).run(unittest.defaultTestLoader.loadTestsFromModule(t))\n'
            'sys.exit(0 if r.wasSuccessful() and r.testsRun >= 6 else 1)'
            % (os.path.join(HERE, 'tools', 'stubdir'), w))
    sd = os.path.join(HERE, 'tools', 'stubdir')
    os.makedirs(sd, exist_ok=True)
    open(os.path.join(sd, 'stub.py'), 'w').write(STUB)
    p = subprocess.run(['/opt/venv/bin/python', '-c', code], cwd=w, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    shutil.rmtree(sd, ignore_errors=True)
    return p.returncode == 0
