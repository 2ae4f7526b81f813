#!/usr/bin/env python3
"""plant.py SEED.py: make a seeded change, confirm it (applies, tests pass, demo 0 before and 1 after), store it.

SEED.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python source)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n. /opt/vp/env.sh >/dev/null 2>&1\nPYTHONPATH="$PWD" exec "${PY:-/opt/venv/bin/python}" -B "$here/demo.py"\n'


def sh(cmd, cwd, **kw):
    e = dict(os.environ, PYTHONPATH=cwd)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(path):
    m = runpy.run_path(path)
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        src = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', src, symlinks=True)
        out = os.path.join(tmp, 'seed')
        os.makedirs(out)
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write(m['DEMO'].lstrip('\n'))
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        p = sh(['bash', os.path.join(out, 'demo.sh')], src, timeout=300)
        if p.returncode != 0:
            return 'demo fails without the change:\n' + p.stdout
        for file, old, new in m['EDITS']:
            f = os.path.join(src, file)
            t = open(f).read()
            if t.count(old) != 1:
                return 'edit of %s matches %d times: %r' % (file, t.count(old), old)
            open(f, 'w').write(t.replace(old, new))
        d = sh(['git', 'diff'], src).stdout
        base = sh(['git', 'diff', '468f284', 'HEAD', '-U0'], src).stdout
        mine = {x[1:] for x in base.splitlines() if x.startswith('+') and not x.startswith('+++')}
        gone = [x[1:] for x in d.splitlines() if x.startswith('-') and not x.startswith('---')]
        if any(x in mine for x in gone):
            print('note: the change touches lines added by a fix:', [x for x in gone if x in mine])
        p = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'occuprob/tests'], src)
        if p.returncode != 0:
            return 'tests fail with the change:\n' + p.stdout[-1500:]
        p = sh(['bash', os.path.join(out, 'demo.sh')], src, timeout=300)
        if p.returncode == 0:
            return 'demo passes with the change:\n' + p.stdout
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(d)
        json.dump({'property': m['PROPERTY'], 'needs': m['NEEDS'], 'what_it_breaks': m['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        dst = os.path.join(V, 'seeded', m['ID'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print('planted', m['ID'], '|', p.stdout.strip()[-200:])
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    rc = 0
    for a in sys.argv[1:]:
        r = main(a)
        if r:
            print(a, r)
            rc = 1
    sys.exit(rc)
