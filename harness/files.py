"""Drivers of the input side (C17, C18): files are written, the real code loads them."""
import os
import shutil
import tempfile

import numpy as np

import rec                       # noqa: F401  (puts /repo on the path)
import shapes
from bf import bf, bfs
from gen import choice, disguise  # noqa: F401
from rec import Session

from occuprob import io as _io
from occuprob.partitionfunctions import RotationalPF
from occuprob.superpositions import SuperpositionApproximation


def atoms_json(S):
    return [{'el': e, 'p': [list(c) for c in p]} for e, p in S]


def number(rng, x):
    """text of a number, and the number the text stands for"""
    k = int(rng.integers(5))
    if k == 0:
        t = '%.2f' % x
    elif k == 1:
        t = '%.6e' % x
    elif k == 2 and abs(x) < 1e6:
        t = '%d' % round(x) if abs(x) >= 1 else '%.3f' % x
    else:
        t = repr(float(x))
    return t


class Isomer:
    def __init__(self, S, unit, E, g, nu, P):
        self.S, self.unit, self.E, self.g, self.nu, self.P = S, unit, E, g, nu, P

    def spec(self):
        return {'E': bf(float(self.E)), 'g': bf(float(self.g)), 'nu': [bf(float(t)) for t in self.nu],
                's': atoms_json(self.S), 'unit': bf(self.unit)}


def isomer(rng, D, S=None, unit=None, placed=True, big=False):
    lin = False
    if S is None:
        if int(rng.integers(6)) == 0:
            S, unit = shapes.straight(rng)
            lin = True
        elif int(rng.integers(7)) == 0:
            S, unit = shapes.cluster(rng)
        else:
            S, unit = shapes.structure(rng, big)
    P = shapes.xyz(S) * unit
    if placed and int(rng.integers(3)):
        P = shapes.turned(rng, P)
    st = int(rng.integers(4))
    nu = rng.uniform(.1, 12, D) if st else rng.integers(1, 40, D).astype(float)
    nu = [number(rng, x) if st else str(int(x)) for x in nu]
    nu = [t if float(t) > 0 else '0.5' for t in nu]
    E = number(rng, choice(rng, [-4433.12, -1.5, 0.0, 12.25]) + float(rng.uniform(-1, 1)))
    g = str(int(rng.integers(1, 9))) if int(rng.integers(8)) else str(choice(rng, [12, 51, 128, 201, 300]))
    if int(rng.integers(8)) == 0:
        E = repr(float(rng.uniform(-1, 1)) * choice(rng, [1e-2, 1e-3, 1e5]))
    return Isomer(S, unit, E, g, nu, P)


def write(rng, path, isomers, digits=12):
    extra = int(rng.integers(4)) == 0
    brace = int(rng.integers(4)) == 0
    col = int(rng.integers(6)) == 0
    with open(path, 'w') as f:
        for n, x in enumerate(isomers):
            fr = ' '.join(x.nu)
            keys = ['Energy=%s' % x.E, 'Multiplicity=%s' % x.g,
                    'Frequencies={%s}' % fr if brace and len(x.nu) > 1 else 'Frequencies="%s"' % fr]
            if extra:
                keys += ['Name=iso%d' % n, 'Charge=0', 'Frame=%d' % (17 - n), 'Note="a b"']
            if int(rng.integers(2)):
                keys = [keys[int(k)] for k in rng.permutation(len(keys))]
            keys.insert(0 if int(rng.integers(3)) else len(keys),
                        'Properties=species:S:1:pos:R:3' + (':charges:R:1' if col else ''))
            f.write('%d\n%s\n' % (len(x.S), ' '.join(keys)))
            for (e, _), q in zip(x.S, x.P):
                f.write('%-2s %.*f %.*f %.*f%s\n' % (e, digits, q[0], digits, q[1], digits, q[2],
                                                     ' 0.25' if col else ''))


def slack(digits):
    return bf(float(8 * 10.0 ** -digits))


class Files:
    """a scratch directory and the recorded loads"""

    def __init__(self, note):
        self.s = Session(note)
        self.dir = tempfile.mkdtemp(prefix='occuprob-files-')
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        return {'note': self.s.note, 'ev': self.s.ev}

    def path(self, name=None):
        self.n += 1
        return os.path.join(self.dir, name or 'f%d.xyz' % self.n)

    def load(self, path, isomers, digits, same=None):
        res, exc = self.s.call(_io.load_properties_from_extxyz, path)
        e = {'op': 'load', 'iso': [x.spec() for x in isomers], 'out': 'num', 'exc': exc, 'slack': slack(digits),
             'same': same or [[0, 0]] * len(isomers), 'energy': [], 'mult': [], 'freq': [], 'mom': [], 'sym': []}
        self.props = res
        if exc:
            e['out'] = 'raise'
        else:
            try:
                for k, key, dim in (('energy', 'energy', 1), ('mult', 'multiplicity', 1), ('freq', 'frequencies', 2),
                                    ('mom', 'moments', 2), ('sym', 'symmetry', 1)):
                    a = np.asarray(res[key])
                    if a.ndim != dim or a.dtype.kind not in 'fiu':
                        raise ValueError('%s has %d dimensions of kind %s' % (key, a.ndim, a.dtype.kind))
                    e[k] = bfs(a)
                if set(res) != {'energy', 'multiplicity', 'frequencies', 'moments', 'symmetry'}:
                    raise ValueError('keys %s' % sorted(res))
            except Exception as err:
                e['out'] = 'odd'
                e['exc'] = repr(err)
        self.s.ev.append(e)
        return len(self.s.ev)

    def rot(self, k):
        p = self.props
        e = {'op': 'rot', 'k': k, 'out': 'num', 'v': []}
        try:
            s = SuperpositionApproximation()
            s.add_partition_functions(RotationalPF(p['symmetry'], p['moments']))
            e['v'] = [bf(x) for x in s.calc_probability(np.array([300.0]))[:, 0]]
        except Exception as err:
            e.update(out='raise', exc=repr(err))
        self.s.ev.append(e)

    def sym(self, S, P, same=0):
        from ase import Atoms
        at = Atoms([e for e, _ in S], P)
        got, exc = self.s.call(_io.calc_symmetry_order, at)
        try:
            got = int(got) if not exc and got == int(got) else -1
        except Exception:
            got = -1
        if not (np.array_equal(at.get_positions(), P) and at.get_chemical_symbols() == [e for e, _ in S]):
            exc = 'the structure was modified'
        self.s.ev.append({'op': 'sym', 's': atoms_json(S), 'got': got, 'exc': exc, 'same': same})
        return len(self.s.ev)


def c17(rng, i):
    f = Files('C17 #%d' % i)
    done = []
    for _ in range(int(rng.integers(1, 3))):
        D = int(choice(rng, [1, 2, 3, 4, 6, 8, 9, 9, 10, 12, 18, 27, 33, 101 if int(rng.integers(4)) == 0 else 9]))
        n = int(rng.integers(1, 6))
        if i % 250 == 77:
            D = min(D, 6)
        iso = [isomer(rng, D) for _ in range(n)]
        if (i % 12 == 5 or i % 250 == 77) and not done:                      # a long file
            small = [isomer(rng, D) for _ in range(12)]
            small = sorted(small, key=lambda x: len(x.S))[:4]
            for _ in range(int(choice(rng, [8, 11, 20, 33, 101, 120, 140] if i % 250 != 77 else [1030])) - n):
                x, y = isomer(rng, D, *(lambda z: (z.S, z.unit))(choice(rng, small))), choice(rng, iso)
                if int(rng.integers(6)) == 0:
                    x.E = y.E
                iso.append(x)
            n = len(iso)
        if n > 1 and int(rng.integers(4)) == 0:           # the same structure or the same data again
            j = int(rng.integers(1, n))
            iso[j].S, iso[j].unit, iso[j].P = iso[0].S, iso[0].unit, iso[0].P
        if n > 2 and int(rng.integers(5)) == 0:
            iso[2].E, iso[2].g, iso[2].nu = iso[0].E, iso[0].g, iso[0].nu
        if n > 1 and int(rng.integers(12)) == 0:
            x = isomer(rng, D + int(choice(rng, [-1, 1, 3])) or 2)
            iso[int(rng.integers(n))] = x
        if n > 1 and int(rng.integers(4)) == 0:           # neighbours that differ in symmetry only
            j = int(rng.integers(1, n))
            for x, (S, unit) in zip((iso[j - 1], iso[j]), shapes.equal_moments(rng)):
                x.S, x.unit, x.P = S, unit, shapes.turned(rng, shapes.xyz(S) * unit)
        digits = int(choice(rng, [8, 9, 12]))
        p = f.path()
        write(rng, p, iso, digits)
        f.load(p, iso, digits)
        done.append((p, iso, digits))
    if len(done) > 1:
        f.load(*done[0])
    return f.close()


def c18(rng, i):
    f = Files('C18 #%d' % i)
    if i % 3 == 0:
        # files: several placements of every structure
        iso, same, keep = [], [], []
        n = int(rng.integers(1, 4))
        for _ in range(n):
            keep.append(isomer(rng, 3, placed=False, big=True))
        lin = any(len(set(e for e, _ in x.S)) and np.linalg.matrix_rank(shapes.xyz(x.S) - shapes.xyz(x.S)[0], tol=1e-6) < 2
                  for x in keep)
        digits = int(choice(rng, [6, 9, 12] if lin else [3, 4, 6, 9, 12]))
        p = f.path()
        write(rng, p, keep, digits)
        f.load(p, keep, digits)
        f.rot(1)
        for j in rng.permutation(n):
            x = keep[int(j)]
            o = rng.permutation(len(x.S))
            P = shapes.turned(rng, x.P)
            iso.append(Isomer([x.S[int(k)] for k in o], x.unit, x.E, x.g, x.nu, P[o]))
            same.append([1, int(j) + 1])
        p = f.path()
        write(rng, p, iso, digits)
        k = f.load(p, iso, digits, same)
        f.rot(k)
    else:
        if int(rng.integers(8)) == 0:
            S, unit = shapes.straight(rng)
        elif int(rng.integers(6)) == 0:
            S, unit = shapes.cluster(rng)
        else:
            S, unit = shapes.structure(rng)
        P = shapes.xyz(S) * unit
        k = f.sym(S, P)
        for _ in range(3):
            o = rng.permutation(len(S))
            Q = shapes.turned(rng, P)
            lin = np.linalg.matrix_rank(P - P[0], tol=1e-6) < 2
            d = int(choice(rng, [6, 9, 12, 15] if lin else [3, 4, 6, 9, 15]))
            f.sym([S[int(j)] for j in o], np.round(Q[o], d), k)
    return f.close()

