"""Drivers of the command line (C19-C21): runs of the command in a scratch directory."""
import contextlib
import hashlib
import io as _stdio
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np

import rec
import shapes
from bf import bf
from files import Isomer, number, write
from gen import choice
from rec import Session

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt                                        # noqa: E402
from matplotlib.backend_bases import FigureCanvasBase                  # noqa: E402

from occuprob import cli as _cli                                       # noqa: E402
from occuprob import io as _io                                         # noqa: E402
from occuprob import partitionfunctions as _pf                         # noqa: E402
from occuprob.superpositions import SuperpositionApproximation         # noqa: E402

KB_PER_THZ = 4.135667696e-3 / 8.617333262e-5          # h nu / kB in K, nu in THz


# -- figures that are saved -----------------------------------------------------------------------

_saved = []
_print_figure = FigureCanvasBase.print_figure


def _look(fig, filename):
    f = {'path': filename, 'axes': len(fig.axes), 'raw': [], 'legend': [], 'xlim': [], 'ylim': [], 'ylabel': ''}
    if fig.axes:
        ax = fig.axes[0]
        f['xlim'] = [float(v) for v in sorted(ax.get_xlim())]
        f['ylim'] = [float(v) for v in sorted(ax.get_ylim())]
        f['ylabel'] = ax.get_ylabel()
        if ax.get_legend() is not None:
            f['legend'] = [t.get_text() for t in ax.get_legend().get_texts()]
        for a in fig.axes:
            for ln in a.lines:
                f['raw'].append((str(ln.get_label()), np.array(ln.get_xdata(), dtype=np.longdouble),
                                 np.array(ln.get_ydata(), dtype=np.longdouble)))
    return f


def _spy(self, filename, *args, **kw):
    if isinstance(filename, (str, os.PathLike)):
        _saved.append(_look(self.figure, os.path.abspath(os.fspath(filename))))
    return _print_figure(self, filename, *args, **kw)


FigureCanvasBase.print_figure = _spy


def curves(raw, at):
    """lines that are data: labelled, or more than a straight guide"""
    named = any(not x[0].startswith('_') for x in raw)
    out = []
    for label, x, y in raw:
        plain = label.startswith('_')
        if plain and (len(x) < 3 or (named and len(y) and np.all(y == y[0]))):
            continue
        n = len(x)
        m = re.findall(r'\d+', label)
        idx = [i for i in at if i < n]
        out.append({'label': label, 'number': int(m[-1]) if m and not plain else 0, 'n': n,
                    'x': [bf(x[i]) for i in idx], 'y': [bf(y[i]) for i in idx]})
    return out


def image(path):
    """kind and size in inches of an image file"""
    with open(path, 'rb') as f:
        b = f.read()
    end = b[-1024:]
    if b'</svg>' not in end and b'%%EOF' not in end and b'IEND' not in end:        # cut short
        return 'other', 0., 0.
    if b[:8] == b'\x89PNG\r\n\x1a\n':
        w, h = int.from_bytes(b[16:20], 'big'), int.from_bytes(b[20:24], 'big')
        dpi = 100.0
        k = b.find(b'pHYs')
        if k > 0 and b[k + 12] == 1:
            dpi = int.from_bytes(b[k + 4:k + 8], 'big') * .0254
        return 'png', w / dpi, h / dpi
    if b[:4] == b'%PDF':
        m = re.search(rb'/MediaBox\s*\[\s*([\d.]+)\s+([\d.]+)\s+([\d.]+)\s+([\d.]+)', b)
        v = [float(x) for x in m.groups()] if m else [0, 0, 0, 0]
        return 'pdf', (v[2] - v[0]) / 72, (v[3] - v[1]) / 72
    if b'<svg' in b[:2000]:
        t = b.decode('utf8', 'replace')
        m = re.search(r'<svg[^>]*>', t).group(0)
        w = re.search(r'\bwidth="([\d.]+)pt"', m)
        h = re.search(r'\bheight="([\d.]+)pt"', m)
        return 'svg', float(w.group(1)) / 72 if w else 0., float(h.group(1)) / 72 if h else 0.
    return 'other', 0., 0.


def digits(v):
    """decimal digits needed to write this double"""
    return len(repr(v).split('e')[0].replace('.', '').replace('-', '').strip('0'))


# -- input files ----------------------------------------------------------------------------------

def make_isomers(rng, Tmin, small=False):
    n = int(rng.integers(1, 6))
    many = not small and int(rng.integers(8)) == 0
    if many:
        n = int(choice(rng, [6, 9, 10, 11, 14, 23]))
    D = int(choice(rng, [1, 2, 3, 4, 6, 7, 9, 9, 12]))
    top = min(12., 2 * 8000. * max(Tmin, .25) / (KB_PER_THZ * D))
    base = choice(rng, [-4433.12, 0., 17.5])
    # one contribution alone stays within double precision (a minimum that it takes below 1e-300 may come out as zero)
    width = min(choice(rng, [.01, .05, .3]), 8.617e-5 * 650. * max(Tmin, .25))
    out = []
    for _ in range(n):
        if many and len(out) > 3:
            S, unit = (lambda x: (x.S, x.unit))(choice(rng, sorted(out, key=lambda x: len(x.S))[:4]))
        elif int(rng.integers(6)) == 0:
            S, unit = shapes.straight(rng)
        else:
            S, unit = shapes.structure(rng)
        P = shapes.xyz(S) * unit
        if int(rng.integers(3)):
            P = shapes.turned(rng, P)
        nu = [number(rng, float(x)) for x in rng.uniform(top / 20, top, D)]
        nu = [t if float(t) > 0 else '0.5' for t in nu]
        E = number(rng, base + width * float(rng.uniform(0, 1)))
        g = int(rng.integers(1, 9)) if int(rng.integers(8)) else int(choice(rng, [12, 51, 130, 300]))
        out.append(Isomer(S, unit, E, str(g), nu, P))
    return out


DIRS = ['', '', 'sub', 'a.xyz', 'my.xyz_files', 'dat', 'run.dat', 'xyz', 'deep/er.xyz/x', 'with space', 'T.1/P']
STEMS = ['mol', 'mol', 'mol.v2', 'xyz', 'dat', 'a.xyz.b', 'my mol', 'P', 'mol_C', 'x.dat', 'xyzxyz', 'mol.xyz', 'q_P', 'run_', 'mol.', '.mol']
OUTS = ['out', 'out', 'res.dat', 'dat', 'a.xyz', 'out.v1', 'my out', 'C', 'xyz', 'o_P', 'x.svg', 'dat_dat', 'run_', 'out.', '_']


class Runs:
    def __init__(self, note):
        self.ev = []
        self.note = note
        self.root = tempfile.mkdtemp(prefix='occuprob-cli-')
        self.cwd = self.root
        plt.close('all')

    def close(self):
        plt.close('all')
        shutil.rmtree(self.root, ignore_errors=True)
        return {'note': self.note, 'ev': self.ev}

    def rel(self, p):
        return os.path.relpath(os.path.join(self.cwd, p), self.root)

    def snap(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as g:
                    out[os.path.relpath(p, self.root)] = (hashlib.sha256(g.read()).hexdigest(), os.stat(p).st_mtime_ns)
        return out

    def name(self, rng, dirs, stems):
        d = choice(rng, dirs)
        if d:
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        p = os.path.join(d, choice(rng, stems))
        k = int(rng.integers(4))
        return os.path.join(self.root, p) if k == 0 else './' + p if k == 1 else p

    def argv(self, rng, flags, o):
        spell = [f.upper() if int(rng.integers(2)) else f for f in flags]
        spell = [spell[int(k)] for k in rng.permutation(len(spell))]
        groups = []
        while spell:
            k = int(rng.integers(1, len(spell) + 1))
            groups.append(['-' + ''.join(spell[:k])])
            spell = spell[k:]
        if flags and int(rng.integers(8)) == 0:
            groups.append([groups[0][0]])              # an option given twice

        def val(name, *vs):
            if len(vs) == 1 and int(rng.integers(2)):
                return ['%s=%s' % (name, vs[0])]
            return [name] + [str(v) for v in vs]
        if o.get('out'):
            groups.append(val('--out_file', o['out']))
        if 'min' in o:
            groups.append(val('--min_temp', o['min']))
        if 'max' in o:
            groups.append(val('--max_temp', o['max']))
        if o.get('plot'):
            groups.append(['--plot'])
        if o.get('fmt'):
            groups.append(val('--plot_format', o['fmt']))
        if o.get('size'):
            groups.append(val('--size', *o['size']))
        groups.append([o['input']])
        groups = [groups[int(k)] for k in rng.permutation(len(groups))]
        return [a for g in groups for a in g]

    def execute(self, argv, real):
        """exit code, text, exception"""
        if real:
            env = dict(os.environ, PYTHONPATH=rec.REPO, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.run([sys.executable, '-m', 'occuprob.cli'] + argv, cwd=self.cwd, env=env, timeout=300,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            exc = p.stdout.strip().splitlines()[-1] if p.returncode == 1 and 'Traceback' in p.stdout else ''
            return p.returncode, p.stdout, exc
        out = _stdio.StringIO()
        old_argv, old_cwd = sys.argv, os.getcwd()
        code, exc = 0, ''
        try:
            sys.argv = ['occuprob'] + argv
            os.chdir(self.cwd)
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                rc, exc = Session().call(self._main)
            code = rc if not exc else 1
        finally:
            sys.argv = old_argv
            os.chdir(old_cwd)
        return code, out.getvalue(), exc

    @staticmethod
    def _main():
        try:
            r = _cli.main()
            return r if isinstance(r, int) else 0
        except SystemExit as err:
            return err.code if isinstance(err.code, int) else 0 if err.code is None else 1

    def answers(self, props, flags, T):
        """the library's own results for the same data"""
        E, g = props['energy'], props['multiplicity']
        pfs = []
        for f in 'escqr':
            if f not in flags:
                continue
            pfs.append({'e': lambda: _pf.ElectronicPF(E, np.ones(len(E))), 's': lambda: _pf.ElectronicPF(E, g),
                        'c': lambda: _pf.ClassicalHarmonicPF(props['frequencies']),
                        'q': lambda: _pf.QuantumHarmonicPF(props['frequencies']),
                        'r': lambda: _pf.RotationalPF(props['symmetry'], props['moments'])}[f]())
        s = SuperpositionApproximation()
        s.add_partition_functions(pfs)
        return s.calc_probability(T), s.calc_heat_capacity(T)

    def run(self, rng, chk, flags, o, isomers, r4=None, real=False, like=0, deep=0, cwd=None,
            content=0, okey=0, broken=False):
        self.cwd = os.path.join(self.root, cwd) if cwd else self.root
        argv = self.argv(rng, sorted(flags), o)
        before = self.snap()
        del _saved[:]
        code, text, exc = self.execute(argv, real)
        return self.report(chk, flags, o, isomers, argv, code, text, exc, before, self.snap(), rng, r4=r4, like=like,
                           deep=deep, content=content, okey=okey, broken=broken)

    def report(self, chk, flags, o, isomers, argv, code, text, exc, before, after, rng, r4=None, like=0, deep=0,
               content=0, okey=0, broken=False, cut=''):
        """write down what a run has left behind"""
        flags = sorted(flags)
        lo, hi = float(o.get('min', 0.)), float(o.get('max', 500.))
        size = o.get('size') or (8., 6.)
        new = sorted(p for p in after if before.get(p, ('', 0))[1] != after[p][1] or p not in before)
        fmt = (o.get('fmt') or 'svg').lower()

        def low(p):
            return p[:-len(fmt)] + fmt if p.lower().endswith('.' + fmt) else p
        inp, out = self.rel(o['input']), self.rel(o['out']) if o.get('out') else ''
        e = {'op': 'run', 'chk': chk, 'argv': argv, 'flags': flags, 'plot': bool(o.get('plot')), 'out': out, 'input': inp,
             'fmt': fmt, 'size': [bf(float(x)) for x in size], 'min': bf(lo), 'max': bf(hi), 'r4': r4 or [],
             'iso': [x.spec() for x in isomers], 'code': code, 'exc': exc, 'said': bool(text.strip()),
             'hurt': any(p not in after for p in before), 'tables': [], 'images': [], 'figs': [], 'lib': [],
             'like': like, 'deep': deep, 'content': content, 'okey': okey, 'broken': broken, 'cut': cut}
        for x in e['iso']:
            del x['s'], x['unit']
        good = not broken and bool(flags) and not ({'e', 's'} <= set(flags) or {'c', 'q'} <= set(flags))
        stem = out if out else inp[:-4]
        mine = {stem + '_' + k + '.dat': k for k in 'PC'}
        images = {stem + '_' + k + '.' + fmt for k in 'PC'}
        e['new'] = [low(p) for p in new]
        # files that were there and are not results of this run have to stay as they were
        e['hurt'] = e['hurt'] or any(p in before and p not in mine and low(p) not in images for p in new)
        if good:
            props = _io.load_properties_from_extxyz(os.path.join(self.cwd, o['input']))
            for x, s, m in zip(e['iso'], props['symmetry'], props['moments']):
                x['sym'], x['mom'] = bf(s), [bf(v) for v in m]
            n = int(np.floor(hi - lo + 1e-9)) + 1
            T = np.minimum(lo + np.arange(n), hi)
            # low temperatures amplify the last digit of a temperature: ask at the temperatures of the table itself
            for p in sorted(mine):
                try:
                    with np.errstate(all='ignore'):
                        own = np.loadtxt(os.path.join(self.root, p), ndmin=2)[:, 0]
                except (OSError, ValueError, IndexError):
                    continue
                if own.shape == T.shape and np.allclose(own, T, rtol=1e-13, atol=0):
                    T = own
                    break
            P, C = self.answers(props, flags, T)
            at = [int(k) for k in rng.permutation(n)[:deep]]
            rest = [k for k in range(n) if k not in at]
            at += sorted(rest[int(k)] for k in rng.permutation(len(rest))[:12])
            if n > 1:
                at = [0] + [k for k in at if k not in (0, n - 1)] + [n - 1]
            e['lib'] = [{'T': bf(T[k]), 'P': [bf(np.float64(v)) for v in P[:, k]], 'C': [bf(np.float64(C[0, k]))]} for k in at]
        for p in sorted(mine):
            full = os.path.join(self.root, p)
            if p not in after or p not in new:
                continue
            with open(full) as f:
                raw = f.read()
            t = {'path': p, 'key': mine[p], 'widths': [], 'T': [], 'rows': [],
                 'digest': hashlib.sha256(raw.encode()).hexdigest()}
            try:
                rows = [[float(v) for v in ln.split()] for ln in raw.splitlines() if ln.strip() and ln.strip()[0] != '#']
            except ValueError as err:
                rows = []
                e['exc'] = e['exc'] or 'table %s: %s' % (p, err)
            t['values'] = hashlib.sha256(repr(rows).encode()).hexdigest()
            t['widths'] = sorted({len(r) for r in rows})
            t['T'] = [bf(r[0]) for r in rows]
            t['long'] = sum(digits(v) >= 17 for r in rows for v in r[1:])
            t['needed'] = sum(digits(float(v)) >= 17 for v in (P if mine[p] == 'P' else C).reshape(-1)) if good else 0
            if good:
                t['rows'] = [[bf(v) for v in rows[k][1:]] for k in at if k < len(rows)]
            e['tables'].append(t)
        for p in new:
            if low(p) in images:
                kind, w, h = image(os.path.join(self.root, p))
                e['images'].append({'path': low(p), 'kind': kind, 'w': bf(w), 'h': bf(h)})
        if good:
            e['figs'] = [self.figure(f, at, low) for f in _saved]
        else:
            e['figs'] = [self.figure(f, [], low) for f in _saved]
        self.ev.append(e)
        return len(self.ev)

    def figure(self, f, at, low):
        return {'path': low(os.path.relpath(f['path'], self.root)), 'axes': f['axes'], 'curves': curves(f['raw'], at),
                'legend': f['legend'], 'xlim': [bf(v) for v in f['xlim']], 'ylim': [bf(v) for v in f['ylim']],
                'ylabel': f['ylabel']}

    def draw(self, rng):
        """one call of io.plot_results"""
        self.cwd = self.root
        n, m = int(rng.integers(1, 6)), int(rng.integers(3, 30))
        T = np.sort(rng.uniform(0, 900, m)) if int(rng.integers(2)) else np.arange(m) * float(rng.uniform(1, 40))
        ys = rng.uniform(-2, 9, (n, m)) if int(rng.integers(2)) else np.cumsum(rng.uniform(0, .1, (n, m)), axis=1)
        kw, labels = {}, []
        if int(rng.integers(2)):
            labels = ['%s %d' % (choice(rng, ['Isomer', 'state', 'm']), i + 1) for i in range(n)]
            kw['labels'] = labels
        if int(rng.integers(2)):
            kw['ylabel'] = choice(rng, ['energy', 'x', 'dipole'])
        if int(rng.integers(2)):
            kw['ylims'] = (-3., 10. + float(rng.integers(5)))
        if int(rng.integers(2)):
            kw['hline_pos'] = [0, 1]
        if int(rng.integers(3)) == 0:
            kw['linewidth'] = 1
        size = (8., 6.)
        if int(rng.integers(2)):
            size = (float(rng.integers(4, 9)), float(rng.integers(3, 7)))
            kw['size'] = size
        fmt = choice(rng, ['svg', 'png', 'pdf', 'svg'])
        path = self.name(rng, DIRS, OUTS) + '.' + fmt
        before = self.snap()
        keep = (ys.tobytes(), T.tobytes())
        del _saved[:]
        old = os.getcwd()
        os.chdir(self.root)
        try:
            _, exc = Session().call(lambda: _io.plot_results(ys, T, path, **kw))
        finally:
            os.chdir(old)
        after = self.snap()
        new = sorted(p for p in after if before.get(p) != after[p])
        at = list(range(m))
        e = {'op': 'draw', 'exc': exc, 'm': m, 'T': [bf(v) for v in T], 'ys': [[bf(v) for v in r] for r in ys],
             'labels': labels, 'ylim': [bf(v) for v in kw['ylims']] if 'ylims' in kw else [],
             'ylabel': kw.get('ylabel', ''), 'path': self.rel(path), 'fmt': fmt, 'size': [bf(v) for v in size], 'new': new,
             'intact': keep == (ys.tobytes(), T.tobytes()), 'images': [],
             'figs': [self.figure(f, at, lambda p: p) for f in _saved]}
        for p in new:
            kind, w, h = image(os.path.join(self.root, p))
            e['images'].append({'path': p, 'kind': kind, 'w': bf(w), 'h': bf(h)})
        self.ev.append(e)


def quarter(q):
    """a whole number of quarters as text"""
    v = q / 4.
    return '%d' % v if v == int(v) else repr(v)


def options(rng, r, h, outs=OUTS):
    """command-line values for a configuration printed by TLC"""
    lo, hi = h['range']
    o = {'input': r.name(rng, DIRS, STEMS) + '.xyz', 'plot': h['plot']}
    if lo or int(rng.integers(3)) == 0:
        o['min'] = quarter(lo)
    if hi != 2000 or int(rng.integers(3)) == 0:
        o['max'] = quarter(hi)
    if h['out']:
        o['out'] = r.name(rng, DIRS, outs)
    return o


def other_range(rng):
    """limits that are not whole quarters"""
    lo = choice(rng, [0., 1.2, 1.7, .5, 3.3, 100.1, 0.39, 20.])
    n = int(rng.integers(0, 40))
    if int(rng.integers(12)) == 0:
        n = int(rng.integers(600, 1600))
    elif int(rng.integers(150)) == 0:
        n = int(rng.integers(10001, 12000))
    hi = lo + n + choice(rng, [0., 0., .5, .9, .1, .25])
    return '%.2f' % lo, '%.2f' % hi


def put(rng, r, o, isomers):
    p = os.path.join(r.cwd, o['input'])
    os.makedirs(os.path.dirname(p), exist_ok=True)
    write(rng, p, isomers, 9)


def litter(rng, r, o):
    """files that are in the way: stale results, and files of other runs"""
    pre = o.get('out') or o['input'][:-4]
    for suffix in ('_P.dat', '_C.dat', '_P.svg', '_A.dat', 'P.dat', '.dat', '_P.dat.bak'):
        if int(rng.integers(3)) == 0:
            p = os.path.join(r.root, pre + suffix)
            if not os.path.exists(p):
                with open(p, 'w') as f:
                    f.write('0 1 2 3 4 5\n' * int(rng.integers(1, 900)))


def _config(rng, h, note):
    r = Runs(note)
    o = options(rng, r, h)
    iso = make_isomers(rng, h['range'][0] / 4. or 1.)
    put(rng, r, o, iso)
    return r, o, iso


def h19(rng, i, h):
    r, o, iso = _config(rng, h, 'C19 %s' % h)
    try:
        if int(rng.integers(3)) == 0:
            litter(rng, r, o)
        r.run(rng, 'C19', h['flags'], o, iso, deep=2, real=i % 16 == 0)
        if int(rng.integers(4)) == 0:
            # other isomers, same place
            iso = make_isomers(rng, h['range'][0] / 4. or 1.)
            put(rng, r, o, iso)
            r.run(rng, 'C19', h['flags'], o, iso, deep=2)
    finally:
        s = r.close()
    return s


def h20(rng, i, h):
    r, o, iso = _config(rng, h, 'C20 %s' % h)
    try:
        if int(rng.integers(2)):
            litter(rng, r, o)
        r.run(rng, 'C20', h['flags'], o, iso, r4=h['range'], real=i % 16 == 0)
        lo, hi = other_range(rng)
        o.update(min=lo, max=hi)
        tiny = float(lo) < 1 and float(lo) > 0
        if not tiny or 'q' not in h['flags']:
            r.run(rng, 'C20', h['flags'], o, iso)
    finally:
        s = r.close()
    return s


def h21(rng, i, h):
    r, o, iso = _config(rng, h, 'C21 %s' % h)
    try:
        plain = dict(o, plot=False)
        r.run(rng, 'C21', h['flags'], plain, iso)
        if int(rng.integers(3)):
            o['fmt'] = choice(rng, ['png', 'svg', 'pdf', 'PNG', 'svg'])
        if int(rng.integers(2)):
            o['size'] = (float(rng.integers(4, 9)), float(choice(rng, [3, 4, 4.5, 6])))
        if int(rng.integers(2)):
            litter(rng, r, o)
        r.run(rng, 'C21', h['flags'], o, iso, like=1)
        if int(rng.integers(2)):
            r.draw(rng)
        iso = make_isomers(rng, h['range'][0] / 4. or 1.)
        put(rng, r, o, iso)
        if int(rng.integers(2)):
            r.run(rng, 'C21', h['flags'], o, iso)
        else:
            r.draw(rng)
    finally:
        s = r.close()
    return s


def s21(rng, i):
    r = Runs('C21 plots #%d' % i)
    try:
        for _ in range(int(rng.integers(2, 6))):
            r.draw(rng)
    finally:
        s = r.close()
    return s


# -- a directory in which the command is run again and again (spec/Workspace.tla) -------------------

FAULTS = ['key', 'key', 'key', 'ragged', 'absent', 'cut', 'empty', 'coordinate', 'frequency']


def damage(rng, path, fault):
    """make the file incomplete or inconsistent; returns what was there"""
    with open(path) as f:
        text = f.read()
    lines = text.split('\n')
    heads = [k for k, ln in enumerate(lines) if 'Frequencies' in ln]
    k = heads[int(rng.integers(len(heads)))]
    several = '"' in lines[k] and len(re.search(r'Frequencies="([^"]*)"', lines[k]).group(1).split()) > 1 \
        if 'Frequencies="' in lines[k] else False
    if fault == 'ragged' and (len(heads) < 2 or not several):
        fault = 'key'
    if fault == 'frequency' and not several:
        fault = 'coordinate'
    if fault == 'key':
        name = choice(rng, ['Energy', 'Multiplicity', 'Frequencies'])
        lines[k] = re.sub(name + r'=("[^"]*"|\{[^}]*\}|\S+) ?', '', lines[k])
    elif fault == 'ragged':
        n = int(rng.integers(2))
        lines[k] = re.sub(r'Frequencies="([^"]*)"', lambda m: 'Frequencies="%s"' % (
            ' '.join(m.group(1).split()[:-1]) if n else m.group(1) + ' 3.25'), lines[k])
    elif fault == 'frequency':
        lines[k] = re.sub(r'Frequencies="(\S+)', 'Frequencies="n.n', lines[k])
    elif fault == 'coordinate':
        words = lines[k + 1].split()
        words[1 + int(rng.integers(3))] = 'x.5'
        lines[k + 1] = ' '.join(words)
    elif fault == 'cut':
        while lines and not lines[-1].strip():
            lines.pop()
        lines.pop()
    if fault == 'absent':
        os.remove(path)
    else:
        with open(path, 'w') as f:
            f.write('' if fault == 'empty' else '\n'.join(lines))
    return text


def _h3x(rng, i, h, chk):
    r = Runs('%s %s' % (chk, h))
    iso, text, ver, broken = {}, {}, {}, {}
    last = 0
    names = {'a': os.path.join(choice(rng, ['', 'sub', 'x.xyz']), 'mol.xyz'), 'b': choice(rng, ['b.v1.xyz', 'sub/iso.xyz', 'B.xyz'])}
    out = choice(rng, ['res', 'sub/all', 'mol_P'])
    opts = {}
    for o in (1, 2):
        fl = choice(rng, ['e', 's', 'eq', 'sq', 'sqr', 'er', 'c', 'ecr', 'r', 'sc'])
        lo = float(choice(rng, [20, 50, 280])) if 'q' in fl else float(choice(rng, [0, 5, 100]))
        opts[o] = (list(fl), {'min': '%d' % lo, 'max': '%d' % (lo + int(rng.integers(2, 30))),
                              'plot': int(rng.integers(6)) == 0})

    def fresh():
        while True:
            x = make_isomers(rng, 1.)
            if len(x) > 1:
                break
        for y in x:
            y.E = '%.4f' % float(y.E)
        return x

    def put_down(n, x, seed):
        p = os.path.join(r.root, names[n])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        write(np.random.default_rng(seed), p, x, 9)

    def bump(t, k):
        return t[:k] + str((int(t[k]) + 3) % 10) + t[k + 1:]
    try:
        os.makedirs(os.path.join(r.root, 'sub'))
        for n in 'ab':
            last += 1
            iso[n], ver[n], broken[n] = fresh(), last, ''
            put_down(n, iso[n], last)
        if int(rng.integers(2)):
            litter(rng, r, {'out': out, 'input': names['a']})
        done = {}
        for x in h:
            if x['op'] == 'run':
                flags, o = opts[x['o']]
                o = dict(o, input=names[x['i']])
                if x['out']:
                    o['out'] = out
                n = x['i']
                r.run(rng, chk, flags, o, [] if broken[n] else iso[n], deep=2, content=ver[n], okey=x['o'],
                      broken=bool(broken[n]), real=i % 24 == 0)
                if not broken[n]:
                    done[ver[n], x['o']] = iso[n]
                continue
            if x['op'] == 'discard':
                for k in 'PC':
                    p = os.path.join(r.root, (out if x['p'] == 'r' else names[x['p']][:-4]) + '_%s.dat' % k)
                    if os.path.exists(p):
                        os.remove(p)
                continue
            n = x['i']
            p = os.path.join(r.root, names[n])
            if x['op'] == 'edit':
                last += 1
                if int(rng.integers(3)):
                    iso[n] = fresh()
                else:                                  # the same, but for one thing
                    y = iso[n] = [Isomer(z.S, z.unit, z.E, z.g, list(z.nu), z.P) for z in iso[n]]
                    z = y[int(rng.integers(len(y)))]
                    k = int(rng.integers(3))
                    if k == 0:
                        z.nu = [repr(float(t) * 1.25) for t in z.nu]
                    elif k == 1:
                        z.P = z.P * 1.125
                    else:
                        z.g = str(int(z.g) % 8 + 1)
                ver[n] = last
                put_down(n, iso[n], last)
            elif x['op'] == 'quiet':                   # same size, same time stamp
                last += 1
                st = os.stat(p)
                with open(p) as f:
                    t = f.read()
                y = iso[n] = [Isomer(z.S, z.unit, z.E, z.g, list(z.nu), z.P) for z in iso[n]]
                z = y[int(rng.integers(len(y)))]
                z.E = bump(z.E, len(z.E) - 3)
                z.g = str(int(z.g) % 8 + 1)
                heads = [k for k, ln in enumerate(t.split('\n')) if 'Frequencies' in ln]
                ls = t.split('\n')
                k = heads[y.index(z)]
                ls[k] = re.sub(r'Energy=\S+', 'Energy=' + z.E, ls[k])
                ls[k] = re.sub(r'Multiplicity=\S+', 'Multiplicity=' + z.g, ls[k])
                with open(p, 'w') as f:
                    f.write('\n'.join(ls))
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
                ver[n] = last
            elif x['op'] == 'put':
                m = x['j']
                shutil.copyfile(os.path.join(r.root, names[m]), p)
                iso[n], ver[n], broken[n] = iso[m], ver[m], ''
            elif x['op'] == 'break':
                broken[n] = choice(rng, FAULTS)
                text[n] = damage(rng, p, broken[n])
            elif x['op'] == 'repair':
                with open(p, 'w') as f:
                    f.write(text[n])
                broken[n] = ''
        if chk == 'C32':
            # the same data under another name
            for k, (key, x) in enumerate(sorted(done.items())):
                names['z'] = 'z%d.xyz' % k
                put_down('z', x, 1000 + k)
                flags, o = opts[key[1]]
                r.run(rng, chk, flags, dict(o, input=names['z']), x, content=key[0], okey=key[1])
    finally:
        s = r.close()
    return s


def h31(rng, i, h):
    return _h3x(rng, i, h, 'C31')


def h32(rng, i, h):
    return _h3x(rng, i, h, 'C32')
