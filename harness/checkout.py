"""Driver of C22: real git repositories are taken through histories, the code is asked for its version."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

import rec
from gen import choice
from rec import Session

NAMES = ['0.1', '1.0.0', '0.2.0rc1', '1.0+local', '2.0-beta', '0.1.0', '10.4.2', '1.2.3.4', '3.0+a.b', '0.9-rc-1', '2']
COPY = ['setup.py', 'setup.cfg', 'versioneer.py', 'README.md', 'MANIFEST.in', 'LICENSE', '.gitattributes']


class Checkout:
    def __init__(self, rng, note):
        self.rng, self.note = rng, note
        self.ev, self.ids = [], []
        self.top = tempfile.mkdtemp(prefix='occuprob-git-')
        self.dir = os.path.join(self.top, choice(rng, ['w', 'a b', 'occuprob-9.9', 'occuprob', 'v1.0']))
        os.mkdir(self.dir)
        self.clock = 1700000000
        self.n = 0
        self.env = {'PATH': os.environ['PATH'], 'HOME': self.top, 'GIT_CONFIG_NOSYSTEM': '1', 'LC_ALL': 'C',
                    'GIT_AUTHOR_NAME': 'a', 'GIT_AUTHOR_EMAIL': 'a@b', 'GIT_COMMITTER_NAME': 'a', 'GIT_COMMITTER_EMAIL': 'a@b'}
        for f in COPY:
            p = os.path.join(rec.REPO, f)
            if os.path.exists(p):
                shutil.copy(p, self.dir)
        os.mkdir(os.path.join(self.dir, 'occuprob'))
        for f in os.listdir(os.path.join(rec.REPO, 'occuprob')):
            if f.endswith('.py'):
                shutil.copy(os.path.join(rec.REPO, 'occuprob', f), os.path.join(self.dir, 'occuprob'))
        with open(os.path.join(self.dir, 'notes.txt'), 'w') as f:
            f.write('0\n')
        with open(os.path.join(self.dir, '.gitignore'), 'w') as f:
            f.write('*.pyc\n__pycache__\n*.egg-info\nbuild\n')
        self.git('init', '-q', '-b', choice(rng, ['main', 'master', 'devel']))
        self.git('add', '-A')
        self.git('commit', '-q', '-m', 'c1')
        self.ids.append(self.git('rev-parse', 'HEAD').strip())
        if int(rng.integers(4)) == 0:                  # longer abbreviations
            self.git('config', 'core.abbrev', choice(rng, ['9', '12', '20', '40']))

    def elsewhere(self):
        """environment of a caller that works on another repository (a hook)"""
        if int(self.rng.integers(4)):
            return {}
        other = os.path.join(self.top, 'other')
        if not os.path.exists(other):
            os.mkdir(other)
            for args in (['init', '-q'], ['commit', '-q', '--allow-empty', '-m', 'x'], ['tag', '77.7']):
                subprocess.run(['git'] + args, cwd=other, env=self.env, check=True, stdout=subprocess.DEVNULL)
        return {'GIT_DIR': os.path.join(other, '.git')}

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)
        return {'note': self.note, 'ev': self.ev, 'ids': self.ids}

    def git(self, *args):
        self.clock += int(choice(self.rng, [0, 1, 60, 86400]))
        e = dict(self.env, GIT_AUTHOR_DATE='%d +0000' % self.clock, GIT_COMMITTER_DATE='%d +0000' % self.clock)
        p = subprocess.run(('git',) + args, cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise RuntimeError('git %s: %s' % (' '.join(args), p.stderr))
        return p.stdout

    def put(self, name, text):
        with open(os.path.join(self.dir, name), 'a') as f:
            f.write(text)

    def do(self, x, names):
        rng, op = self.rng, x['op']
        self.n += 1
        e = {'op': op}
        if op == 'commit':
            if int(rng.integers(3)):
                self.put('file%d.txt' % self.n, 'x\n')
                self.git('add', '-A', 'file%d.txt' % self.n)
            self.git('commit', '-q', '-a', '--allow-empty', '-m', 'c')
            self.ids.append(self.git('rev-parse', 'HEAD').strip())
        elif op == 'tag':
            e['n'] = names[x['n']]
            if int(rng.integers(2)):
                self.git('tag', '-f', '-a', '-m', 'release', e['n'])
            else:
                self.git('tag', '-f', e['n'])
        elif op == 'untag':
            e['n'] = names[x['n']]
            self.git('tag', '-d', e['n'])
        elif op == 'modify':
            k = int(rng.integers(5))
            p = os.path.join(self.dir, 'notes.txt')
            if not os.path.exists(p):
                k = 3
            if k == 0:
                self.put('notes.txt', 'more\n')
            elif k == 1:
                self.put('notes.txt', 'staged\n')
                self.git('add', 'notes.txt')
            elif k == 2:
                os.remove(p)
            elif k == 3:
                self.put('new%d.txt' % self.n, 'new\n')
                self.git('add', 'new%d.txt' % self.n)
            else:
                os.chmod(p, os.stat(p).st_mode ^ 0o111)
        elif op == 'restore':
            self.git('reset', '-q', '--hard')
        elif op == 'litter':
            k = int(rng.integers(3))
            if k == 0:
                self.put('untracked.txt', 'x\n')
            elif k == 1:
                self.put('x.pyc', 'x\n')
            else:
                os.utime(os.path.join(self.dir, 'setup.py'), (1, 1))
        elif op == 'checkout':
            e['c'] = x['c']
            if int(rng.integers(2)):
                self.git('checkout', '-q', '-B', 'b%d' % int(rng.integers(2)), self.ids[x['c'] - 1])
            else:
                self.git('checkout', '-q', '--detach', self.ids[x['c'] - 1])
        elif op == 'merge':
            e['c'] = x['c']
            self.git('merge', '-q', '--no-ff', '-m', 'm', self.ids[x['c'] - 1])
            self.ids.append(self.git('rev-parse', 'HEAD').strip())
        self.ev.append(e)

    # -- ways of asking ---------------------------------------------------------------------------
    def python(self, args, cwd=None):
        e = dict(self.env, **self.elsewhere(), PYTHONPATH=self.dir, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
        p = subprocess.run([sys.executable] + args, cwd=cwd or self.dir, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=300)
        if p.returncode:
            raise RuntimeError((p.stderr.strip().splitlines() or ['exit %d' % p.returncode])[-1])
        return p.stdout

    def load(self, path):
        spec = importlib.util.spec_from_file_location('scratch_version', path)
        m = importlib.util.module_from_spec(spec)
        old = dict(os.environ)
        try:
            os.environ.update(self.elsewhere())
            spec.loader.exec_module(m)
            return m.get_versions()
        finally:
            os.environ.clear()
            os.environ.update(old)

    def ask(self, via):
        vers = full = ''

        def go():
            if via == 'package':
                d = self.load(os.path.join(self.dir, 'occuprob', '_version.py'))
                return d['version'], d['full-revisionid'] or ''
            if via == 'import':
                out = self.python(['-c', 'import occuprob; print(occuprob.__version__); print(occuprob.__git_revision__)'],
                                  cwd=choice(self.rng, [self.top, self.dir, '/']))
                return out.split('\n')[:2]
            if via == 'cli':
                out = self.python(['-m', 'occuprob.cli', '--version'], cwd=choice(self.rng, [self.top, self.dir]))
                return out.strip().split(' ', 1)[1], ''
            if via == 'setup':
                return self.python(['setup.py', '--version']).strip().splitlines()[-1], ''
            if via == 'versioneer':
                out = self.python(['-c', 'import versioneer as v; print(v.get_version()); '
                                         'print(v.get_versions()["full-revisionid"])'])
                return out.split('\n')[:2]
            if via == 'built':
                lib = tempfile.mkdtemp(dir=self.top)
                self.python(['setup.py', '-q', 'build', '--build-base', os.path.join(lib, 'tmp'),
                             '--build-lib', os.path.join(lib, 'out')])
                d = self.load(os.path.join(lib, 'out', 'occuprob', '_version.py'))
                return d['version'], d['full-revisionid'] or ''

        res, exc = Session().call(go)
        if not exc:
            vers, full = str(res[0]), str(res[1])
        self.ev.append({'op': 'report', 'via': via, 'vers': vers, 'full': full, 'exc': exc})

    def archive(self):
        tar = os.path.join(self.top, 'a.tar')
        self.git('archive', '--prefix=occuprob-x/', '-o', tar, 'HEAD')
        out = tempfile.mkdtemp(dir=self.top)
        subprocess.run(['tar', 'xf', tar, '-C', out], check=True)

        def go():
            d = self.load(os.path.join(out, 'occuprob-x', 'occuprob', '_version.py'))
            return d['version'], d['full-revisionid'] or ''
        res, exc = Session().call(go)
        e = {'op': 'archive', 'vers': '', 'full': '', 'exc': exc}
        if not exc:
            e['vers'], e['full'] = str(res[0]), str(res[1])
        self.ev.append(e)


def h22(rng, i, h):
    c = Checkout(rng, 'C22 %s' % h)
    try:
        pick = rng.permutation(len(NAMES))
        names = {n: NAMES[int(k)] for n, k in zip('ABC', pick)}
        c.ask('package')
        for x in h:
            c.do(x, names)
            c.ask('package')
        if i % 16 == 7:                                # a long time since
            for _ in range(int(choice(rng, [3, 9, 12]))):
                c.do({'op': 'commit'}, names)
            c.ask('package')
            c.do({'op': 'modify'}, names)
            c.ask('package')
        k = i % 8
        if k < 3:
            # (setup.py prints the version in normal form: only for tags that are)
            c.ask('setup' if k == 1 and not any('-' in n for n in names.values()) else 'versioneer')
        elif k == 3 and i % 3 == 0:
            c.ask('cli')
            c.ask('import')
        elif k == 4 and i % 2 == 0:
            c.ask('built')
        if int(rng.integers(3)) == 0:
            c.archive()
    finally:
        s = c.close()
    return s
