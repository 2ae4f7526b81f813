"""Driver of C25: comparisons of property dictionaries."""
import numpy as np

import rec                      # noqa: F401
from bf import bf
from gen import choice, disguise
from rec import Session

from occuprob import utils as _ut

KEYS = ['energy', 'multiplicity', 'frequencies', 'moments', 'symmetry', 'a', 'b', 'E']


def record(d):
    return [{'key': k, 'shape': list(np.shape(v)), 'v': [bf(x) for x in np.asarray(v).reshape(-1)]} for k, v in d.items()]


def snap(d):
    return [(k, np.shape(v), np.asarray(v).dtype.str, np.asarray(v).tobytes()) for k, v in d.items()]


def cmp(s, a, b):
    before = (snap(a), snap(b))
    res, exc = s.call(_ut.compare_numpy_dictionaries, a, b)
    out = 'raise' if exc else ('yes' if res else 'no') if isinstance(res, (bool, np.bool_)) else 'odd'
    s.ev.append({'op': 'cmp', 'a': record(a), 'b': record(b), 'out': out, 'exc': exc,
                 'intact': before == (snap(a), snap(b))})


def shuffled(rng, d):
    ks = list(d)
    return {ks[int(j)]: d[ks[int(j)]] for j in rng.permutation(len(ks))}


def h25(rng, i, h):
    """a pair printed by TLC: the symbolic entries stand for numbers"""
    s = Session('C25 pair %s' % h)
    val = {0: choice(rng, [0., -4433.12, 1., 7.]), 1: choice(rng, [3., 1.25, 2e-3, 410., np.inf])}

    def real(d, noise):
        out = {}
        for k, x in d.items():
            v = np.array([val[y] for y in x['v']], dtype=float).reshape(x['shape'])
            out[k] = v * (1 + noise) if int(rng.integers(2)) else v
        return shuffled(rng, out)
    a, b = h['a'], h['b']
    a = a if isinstance(a, dict) else {}
    b = b if isinstance(b, dict) else {}
    d1, d2 = real(a, 0.), real(b, choice(rng, [0., 1e-12, -1e-13]))
    cmp(s, d1, d2)
    cmp(s, d2, d1)
    return s


def table(rng, N, D):
    return {'energy': rng.uniform(-5000, 10, N), 'multiplicity': rng.integers(1, 9, N),
            'frequencies': rng.uniform(.1, 50, (N, D)), 'moments': rng.uniform(1, 900, (N, 3)),
            'symmetry': rng.integers(1, 24, N)}


def c25(rng, i):
    s = Session('C25 #%d' % i)
    N, D = int(rng.integers(1, 7)), int(choice(rng, [1, 3, 9, 12]))
    a = table(rng, N, D)
    for k in list(a):
        if int(rng.integers(5)) == 0:
            del a[k]
    if int(rng.integers(4)) == 0:
        a['extra'] = np.array(float(rng.uniform(1, 2)))
    if int(rng.integers(8)) == 0:
        a['empty'] = np.zeros((0, 3))
    if int(rng.integers(5)) == 0:                       # small numbers
        a = {k: v * choice(rng, [1e-2, 1e-4, 1e-6]) for k, v in a.items()}
    for _ in range(6):
        b = {k: np.array(v) for k, v in a.items()}
        kind = int(rng.integers(10))
        k = choice(rng, list(b)) if b else None
        if k is None or kind == 0:
            pass
        elif kind == 1:                                 # rounding
            b = {q: v * (1 + choice(rng, [1e-13, -1e-12])) for q, v in b.items()}
        elif kind in (2, 3) and b[k].size:              # one entry
            x = b[k].astype(float).reshape(-1)
            j = int(rng.integers(x.size))
            x[j] += choice(rng, [1., -1.]) * max(choice(rng, [1., .01]), abs(x[j])) * choice(rng, [2e-4, 1e-3, .1, 1, 100])
            b[k] = x.reshape(np.shape(a[k]))
        elif kind == 4:                                 # keys
            how = int(rng.integers(3))
            if how:
                v = b.pop(k)
            if how == 1:
                b[k + '_'] = v
            if how == 0:
                b['more'] = np.ones(2)
        elif kind == 5:                                 # shape, same numbers
            v = b[k]
            b[k] = choice(rng, [v.reshape(-1, 1), v.reshape(1, -1), v[None], v.reshape(-1), v[..., None]])
        elif kind == 6 and b[k].ndim:                   # shape: fewer or more, and what broadcasts
            v = b[k]
            b[k] = choice(rng, [v[:1], np.concatenate([v, v]), v[:-1], np.broadcast_to(v, (2,) + v.shape).copy()])
            if int(rng.integers(2)) and v.size:
                c = np.full_like(v, v.reshape(-1)[0])
                a = dict(a)
                a[k] = c
                b[k] = choice(rng, [np.array(c.reshape(-1)[0]), c[:1], c.reshape(-1)[:1]])
        elif kind == 7:                                 # types
            b = {q: np.asfortranarray(v) if int(rng.integers(2)) else v.astype(np.longdouble) for q, v in b.items()}
        elif kind == 8 and b[k].size > 1:               # two entries exchanged
            x = b[k].reshape(-1).copy()
            x[[0, -1]] = x[[-1, 0]]
            b[k] = x.reshape(b[k].shape)
        elif kind == 9 and len(b) > 1:                  # the arrays of two keys exchanged
            q = [x for x in b if x != k][int(rng.integers(len(b) - 1))]
            b[k], b[q] = b[q], b[k]
        if int(rng.integers(2)):
            b = shuffled(rng, b)
        b = {q: disguise(rng, v) if v.ndim else v for q, v in b.items()}
        if int(rng.integers(2)):
            cmp(s, a, b)
            cmp(s, b, a)
        else:
            cmp(s, b, a)
    cmp(s, a, a)
    return s
