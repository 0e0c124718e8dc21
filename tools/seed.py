"""seed(id, property, edits, demo, needs, breaks): records a planted bug.
edits: [(file, old, new)]. demo: python source run with cwd = repository."""
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg')
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])


def seed(id, prop, edits, demo, needs, breaks, cla=False):
    d = os.path.join(ROOT, 'seeded', id)
    tmp = tempfile.mkdtemp(prefix='seed_')
    rep = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', rep, symlinks=True)
    try:
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write('import os, sys\n'
                    'sys.path.insert(0, os.getcwd())\n'
                    'sys.path.insert(0, os.path.dirname('
                    'os.path.abspath(__file__)))\n'
                    'import numpy as np\n'
                    + ('import cla\ncla.install()\n' if cla else '') + demo)
        if cla:
            shutil.copy(os.path.join(ROOT, 'harness', 'cla.py'), d)
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n# exit 0 when the behaviour is right\n'
                    'here=$(cd "$(dirname "$0")" && pwd)\n'
                    'export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 '
                    'MPLBACKEND=Agg\n'
                    'PYTHONPATH=$PWD exec /opt/venv/bin/python -B '
                    '"$here/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump({'property': prop, 'needs': needs,
                       'what_it_breaks': breaks}, f, indent=1)
        run = lambda: subprocess.run(
            ['bash', os.path.join(d, 'demo.sh')], cwd=rep, env=ENV,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            timeout=300)
        r = run()
        assert r.returncode == 0, (id, 'demo fails on clean tree', r.stdout)
        for path, old, new, *nth in edits:
            p = os.path.join(rep, path)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old = old.replace('\r\n', '\n').replace('\n', '\r\n')
                new = new.replace('\r\n', '\n').replace('\n', '\r\n')
            if nth:      # the nth occurrence, from 0
                parts = s.split(old)
                assert len(parts) > nth[0] + 1, (id, path, len(parts))
                k = nth[0] + 1
                s = old.join(parts[:k]) + new + old.join(parts[k:])
            else:
                assert s.count(old) == 1, (id, path, s.count(old), old)
                s = s.replace(old, new)
            open(p, 'w', newline='').write(s)
        r = run()
        assert r.returncode != 0, (id, 'demo passes with the bug', r.stdout)
        print(id, 'demo with bug:', r.stdout.strip().splitlines()[-1:])
        t = subprocess.run(
            ['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-p',
             'no:cacheprovider', '--continue-on-collection-errors'], cwd=rep,
            env=dict(ENV, PYTHONPATH=rep), stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True)
        assert '22 passed' in t.stdout and 'failed' not in t.stdout, t.stdout
        diff = subprocess.run(['git', 'diff', '--binary'], cwd=rep,
                              stdout=subprocess.PIPE).stdout
        with open(os.path.join(d, 'patch.diff'), 'wb') as f:
            f.write(diff)
        subprocess.check_call(['git', '-C', '/repo', 'apply', '--check',
                               os.path.join(d, 'patch.diff')])
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
