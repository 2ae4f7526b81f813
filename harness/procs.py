"""The command as processes that are stopped before each of their file operations (spec/Processes.tla).

A forked child runs occuprob.cli.main() under an audit hook and a profile function; both stop it before it opens,
first writes to, closes, renames, ... a file below the session's directory, until the driver says go on.
"""
import ctypes
import importlib
import json
import os
import resource
import select
import shutil
import signal
import sys
import tempfile
import threading
import time

import numpy as np

import command
from command import Runs, make_isomers, write, choice, litter, _cli, plt

WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
PLACES = ('TMPDIR', 'HOME', 'XDG_CACHE_HOME', 'XDG_RUNTIME_DIR', 'XDG_DATA_HOME', 'XDG_STATE_HOME', 'XDG_CONFIG_HOME')
BLOCKED = 4.          # seconds without a word: waits for another run
OTHERS = ('os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.link', 'os.symlink', 'os.truncate', 'os.utime',
          'os.chmod', 'shutil.move', 'shutil.copyfile', 'shutil.rmtree')


def _home(root):
    """a session's own place for what programs keep elsewhere"""
    return root + '.home'


def _child(argv, cwd, root, home, orders, words, text):
    """never returns"""
    code = 70
    try:
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)          # not without the driver
        os.environ.update({v: home for v in PLACES})
        tempfile.tempdir = None
        os.chdir(cwd)
        sys.stdout = sys.stderr = os.fdopen(text, 'w', closefd=False)
        sys.argv = ['occuprob'] + argv
        free = [False]
        first = set()
        main = threading.get_ident()

        def stop(kind, path):
            if free[0] or threading.get_ident() != main:
                return
            os.write(words, (json.dumps([kind, path]) + '\n').encode())
            x = os.read(orders, 1)
            if x == b'G' or not x:
                free[0] = True
            elif x in (b'F', b'X'):                     # the disk is full / killed in the middle of a write
                n = int.from_bytes(os.read(orders, 2), 'big')
                if x == b'X':
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
                free[0] = True

        def inside(p):
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if not isinstance(p, (str, os.PathLike)):
                return ''
            p = os.path.abspath(os.fspath(p))
            return p if p.startswith((root + os.sep, home + os.sep)) else ''

        def hook(event, args):
            if event == 'open':
                p = inside(args[0])
                if p and not os.path.isdir(p):
                    stop('o' if isinstance(args[2], int) and args[2] & WRITING else 'r', p)
            elif event in OTHERS:
                for a in args[:2]:
                    p = inside(a)
                    if p:
                        stop('m', p)
                        break

        def prof(frame, event, arg):
            if event != 'c_call' or getattr(arg, '__name__', '') not in ('write', 'writelines', 'close'):
                return
            f = getattr(arg, '__self__', None)
            p = inside(getattr(f, 'name', None)) if f is not None and not isinstance(f, type(os)) else ''
            if not p or getattr(f, 'closed', True):
                return
            mode = getattr(f, 'mode', 'w')
            if isinstance(mode, str) and 'r' in mode and '+' not in mode:
                return
            key = (id(f), arg.__name__ == 'close')
            if key not in first:
                first.add(key)
                stop('c' if key[1] else 'w', p)
        sys.addaudithook(hook)
        sys.setprofile(prof)
        try:
            for m in [m for m in sys.modules if m.split('.')[0] == 'occuprob']:        # a program starts afresh
                del sys.modules[m]
            command._cli = importlib.import_module('occuprob.cli')
            code = Runs._main()
        except BaseException as err:
            code = 1
            sys.setprofile(None)
            print('%s: %s' % (type(err).__name__, err))
        sys.setprofile(None)
        free[0] = True
        sys.stdout.flush()
    finally:
        os._exit(code & 255)


class Process:
    def __init__(self, r, argv):
        o, self.orders = os.pipe()
        self.words, w = os.pipe()
        self.text, t = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.orders)
            _child(argv, r.root, r.root, _home(r.root), o, w, t)
        for fd in (o, w, t):
            os.close(fd)
        self.buf, self.said, self.at, self.code, self.killed, self.stops, self.ticks = b'', b'', None, None, False, 0, 0
        self.wait()

    def wait(self, limit=60.):
        """until it stops again or ends; None while it is blocked"""
        end, idle = time.time() + limit, 0
        self.at = None
        while self.code is None:
            if b'\n' in self.buf:
                ln, self.buf = self.buf.split(b'\n', 1)
                self.at = json.loads(ln)
                self.stops += 1
                return self.at
            left = end - time.time()
            if left <= 0:
                return None
            fds = [fd for fd in (self.words, self.text) if fd is not None]
            ready = select.select(fds, [], [], min(left, .25))[0]
            idle = idle + 1 if not ready and limit < 60 and self.sleeps() else 0
            if idle > 3:
                return None
            for fd in ready:
                x = os.read(fd, 65536)
                if fd == self.text:
                    self.said += x
                    if not x:
                        os.close(fd)
                        self.text = None
                elif x:
                    self.buf += x
                else:
                    os.close(fd)
                    self.words = None
            if self.words is None:
                while self.text is not None:
                    x = os.read(self.text, 65536)
                    self.said += x
                    if not x:
                        os.close(self.text)
                        self.text = None
                _, st = os.waitpid(self.pid, 0)
                self.code = os.waitstatus_to_exitcode(st)
                os.close(self.orders)
        return 'over'

    def sleeps(self):
        """it has hardly computed since this was last asked"""
        try:
            with open('/proc/%d/stat' % self.pid) as f:
                x = f.read().rsplit(')', 1)[1].split()
        except OSError:
            return False
        was, self.ticks = self.ticks, int(x[11]) + int(x[12])
        return x[0] == 'S' and self.ticks - was <= 2

    def order(self, x, limit):
        """go on until the next stop"""
        if self.code is not None:
            return
        if self.at is None and self.wait(limit if limit >= 60 else .05) is None:
            return
        if self.code is not None:
            return
        self.at = None
        try:
            os.write(self.orders, x)
        except BrokenPipeError:
            pass
        self.wait(limit)

    def kill(self, how=signal.SIGKILL):
        if self.code is None:
            os.kill(self.pid, how)
            self.killed = True
            if how != signal.SIGKILL:                       # it may finish what it is doing
                try:
                    os.write(self.orders, b'G')
                except BrokenPipeError:
                    pass
            self.wait(60.)

    def count(self):
        """how often it stops when nothing is in its way"""
        n = 0
        while self.code is None and n < 200:
            n += 1
            self.order(b'n', 60.)
        self.order(b'G', 60.)
        return n

    def step(self, kind, rng, limit, n=0):
        """one step of the specification: up to the first stop of the next one, or n stops"""
        if n:
            for _ in range(n):
                self.order(b'n', limit)
            return
        self.order(b'n', limit)
        if kind == 'read':
            while self.at and self.at[0] == 'r' and int(rng.integers(12)):
                self.order(b'n', limit)
        elif kind == 'fill' and self.at and self.at[0] in 'cm' and int(rng.integers(2)):
            self.order(b'n', limit)


def _session(rng, i, h, chk):
    r = Runs('%s %s' % (chk, json.dumps(h)))
    names = {'a': choice(rng, ['mol.xyz', 'sub/mol.xyz', 'x.xyz/mol.xyz']), 'b': choice(rng, ['b.v1.xyz', 'sub/iso.xyz', 'B.xyz'])}
    outs = {'r': choice(rng, ['res', 'sub/all', 'mol_P', 'b.v1_C'])}
    opts, iso = {}, {}
    live, jobs, done, steps = {}, {}, {}, {}
    base = list(choice(rng, ['e', 's', 'eq', 'sq', 'sqr', 'er', 'c', 'ecr', 'r', 'sc']))
    lo = float(choice(rng, [20, 50, 280])) if 'q' in base else float(choice(rng, [0, 5, 100]))
    for o in (1, 2):
        fl, n = base, int(rng.integers(2, 30))
        if o == 2 and int(rng.integers(2)):
            fl = [f for f in base if f != 'e'] + ['s'] if 'e' in base else ['e'] + [f for f in base if f != 's']
        opts[o] = (list(fl), {'min': '%d' % (lo + (int(rng.integers(3)) if o == 2 else 0)), 'max': '%d' % (lo + 2 + n),
                              'plot': int(rng.integers(5)) == 0})
    home, mine, kept = _home(r.root), r.root + '.driver', {v: os.environ.get(v) for v in PLACES}
    os.environ.update({v: mine for v in PLACES})
    try:
        os.mkdir(home)
        os.mkdir(mine)
        tempfile.tempdir = None
        for d in ('sub', 'x.xyz'):
            os.makedirs(os.path.join(r.root, d))
        for k, n in enumerate('ab'):
            while True:
                iso[n] = make_isomers(rng, 1., small=True)
                if len(iso[n]) > 1:
                    break
            if n == 'b' and int(rng.integers(2)):            # much the same data
                iso[n] = [command.Isomer(z.S, z.unit, z.E, z.g, list(z.nu), z.P) for z in iso['a']]
                z = iso[n][0]
                z.g, z.nu = str(int(z.g) % 8 + 1), [repr(float(t) * 1.25) for t in z.nu]
            write(rng, os.path.join(r.root, names[n]), iso[n], 9)
        if int(rng.integers(2)):
            litter(rng, r, {'out': outs['r'], 'input': names['a']})

        def spec(j):
            i_, out, o = j
            fl, kw = opts[o]
            kw = dict(kw, input=names[i_])
            if out:
                kw['out'] = outs[out]
            return fl, kw

        def own(kw):
            stem = kw.get('out') or kw['input'][:-4]
            return {stem + '_' + k + '.' + x for k in 'PC' for x in ('dat', 'svg')}
        start = r.snap()
        results = set()

        def over(p, cut):
            """record a run that has ended"""
            x = live.pop(p)
            j = jobs[p]
            fl, kw = spec(j)
            mine = own(kw)
            after = r.snap()
            keep = mine | set(names.values())
            del command._saved[:]
            exc = '' if x['x'].code == 0 else x['x'].said.decode('utf8', 'replace').strip().splitlines()[-1:]
            exc = exc if isinstance(exc, str) else exc[0] if exc else 'exit code %s' % x['x'].code
            k = r.report(chk, fl, kw, iso[j[0]], x['argv'], x['x'].code, x['x'].said.decode('utf8', 'replace'), exc,
                         {f: v for f, v in x['before'].items() if f in keep}, {f: v for f, v in after.items() if f in keep},
                         rng, deep=1, content=ord(j[0]), okey=j[2], cut=cut)
            if x['x'].code == 0:
                done[p] = ({f: after[f][0] for f in mine if f in after}, k)
            else:
                done.pop(p, None)

        def begin(p, j):
            fl, kw = spec(j)
            for q in [q for q in live if own(spec(jobs[q])[1]) & own(kw)]:      # in the specification it is over
                live[q]['x'].order(b'G', 60.)
                if live[q]['x'].code is not None:
                    over(q, live[q]['cut'])
            jobs[p] = j
            results.update(own(kw))
            for q in [q for q in done if own(spec(jobs[q])[1]) & own(kw)]:
                del done[q]
            r.cwd = r.root
            argv = r.argv(rng, fl, kw)
            live[p] = {'argv': argv, 'before': r.snap(), 'x': Process(r, argv), 'cut': ''}
            if live[p]['x'].code is not None:
                over(p, '')

        # every run by itself, elsewhere
        stops = []
        jl = sorted({(x['i'], x['o']) for x in h if x['op'] == 'start'})
        for n, o in jl:
            os.makedirs(os.path.join(r.root, 'alone'), exist_ok=True)
            fl, kw = opts[o]
            f = 'alone/%s%d.xyz' % (n, o)
            shutil.copyfile(os.path.join(r.root, names[n]), os.path.join(r.root, f))
            if not stops:
                r.cwd = r.root
                stops.append(Process(r, r.argv(rng, fl, dict(kw, input=f, plot=False))).count())
            r.run(rng, chk, fl, dict(kw, input=f, plot=False), iso[n], deep=1, content=ord(n), okey=o)
        shutil.rmtree(os.path.join(r.root, 'alone'))
        shutil.rmtree(home)
        os.mkdir(home)
        redo, even = [], int(rng.integers(3)) > 0
        for x in h:
            p = x['p']
            if x['op'] == 'start':
                begin(p, (x['i'], x['out'], x['o']))
                continue
            if p not in live:
                continue
            c = live[p]['x']
            limit = BLOCKED if len(live) > 1 else 60.
            wall = ''
            if x['op'] == 'kill':
                live[p]['cut'] = 'kill'
                if even:
                    c.step('kill', rng, limit, int(rng.integers(0, 4)))
                if c.at and int(rng.integers(3)) == 0 and c.at[0] in 'wo':
                    c.order(b'X' + int(rng.integers(0, 700)).to_bytes(2, 'big'), 60.)
                    c.kill()
                else:
                    c.kill(choice(rng, [signal.SIGKILL, signal.SIGKILL, signal.SIGTERM, signal.SIGINT]))
                c.kill()
            elif x['op'] == 'full':
                live[p]['cut'] = 'full'
                c.order(b'F' + int(rng.integers(0, 700)).to_bytes(2, 'big'), 60.)
                if c.code is None:
                    c.order(b'G', 60.)
            elif x['op'] == 'wall':
                kw = spec(jobs[p])[1]
                tables = sorted(f for f in own(kw) if kw['plot'] or f.endswith('.dat'))
                now = r.snap()
                free = [f for f in tables if now.get(f) == live[p]['before'].get(f)]      # not written yet
                if c.at and c.at[0] == 'o' and free:
                    live[p]['cut'] = 'wall'
                    f = os.path.relpath(c.at[1], r.root)
                    wall = os.path.join(r.root, f if f in free else choice(rng, free))
                    if os.path.exists(wall):
                        os.remove(wall)
                        live[p]['before'].pop(os.path.relpath(wall, r.root), None)
                    os.mkdir(wall)
                c.order(b'G', 60.)
            else:
                left = {'read': 5, 'open': 4 - 2 * steps.get(p, 0), 'fill': 3 - 2 * steps.get(p, 0)}[x['op']]
                n = 0
                if even:                              # a random share of the stops that are left
                    rest = stops[0] - c.stops
                    n = 1 + int(rng.integers(0, max(1, 2 * (rest // max(left, 1)) + 1))) if left > 1 else max(1, rest)
                c.step(x['op'], rng, limit, n)
                steps[p] = steps.get(p, 0) + (x['op'] == 'fill')
                if steps[p] == 2 and c.code is None and int(rng.integers(2)):
                    c.order(b'G', limit)
            if live[p]['cut'] and jobs[p] not in redo:
                redo.append(jobs[p])
            if c.code is not None:
                over(p, live[p]['cut'])
            if wall:
                os.rmdir(wall)
        # let everybody finish
        for _ in range(4):
            for p in sorted(live):
                c, limit = live[p]['x'], BLOCKED if len(live) > 1 else 60.
                c.order(b'G', limit)
                if c.code is not None:
                    over(p, live[p]['cut'])
            if not live:
                break
        for p in sorted(live):
            live[p]['x'].kill()
            over(p, live[p]['cut'])
        end = r.snap()
        late = sorted(f for p in done for f in done[p][0] if end.get(f, ('',))[0] != done[p][0][f])
        hurt = sorted(f for f in start if f not in results and end.get(f) != start[f])
        r.ev.append({'op': 'dir', 'hurt': hurt, 'late': late, 'cuts': len(redo),
                     'extra': sorted(f for f in end if f not in start and f not in results)})
        # what was cut short is repeated
        for n, j in enumerate(redo):
            fl, kw = spec(j)
            r.run(rng, chk, fl, kw, iso[j[0]], deep=1, content=ord(j[0]), okey=j[2], real=i % 24 == 0)
    finally:
        for p in live:
            live[p]['x'].kill()
        plt.close('all')
        for v in PLACES:
            os.environ.pop(v) if kept[v] is None else os.environ.update({v: kept[v]})
        tempfile.tempdir = None
        shutil.rmtree(home, ignore_errors=True)
        shutil.rmtree(mine, ignore_errors=True)
        s = r.close()
    return s


def h33(rng, i, h):
    return _session(rng, i, h, 'C33')


def h34(rng, i, h):
    return _session(rng, i, h, 'C34')
