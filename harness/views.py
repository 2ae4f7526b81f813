"""Tables in memory (C30): replays the views of spec/Representations.tla."""
import numpy as np

import gen
from gen import choice
from props import HOWS, reg
from rec import Session, rel_value


class Tagged(np.ndarray):
    """an array subclass with nothing of its own"""


def store(v, table):
    """the memory and the view that the specification describes, for a 2 x 3 table"""
    dt = np.dtype(v['kind']).newbyteorder('>' if v['order'] == 'big' else '<')
    junk = np.array([77 if dt.kind in 'iu' else np.nan]).astype(dt)
    top = v['off'] + max(0, v['s0']) + max(0, 2 * v['s1'])
    size = top + 2
    raw = bytearray(v['skew']) + bytearray(junk.tobytes() * size) + bytearray(16)
    n = dt.itemsize
    for i in range(2):
        for j in range(3):
            a = v['skew'] + (v['off'] + i * v['s0'] + j * v['s1']) * n
            raw[a:a + n] = np.array([table[i][j]]).astype(dt).tobytes()
    buf = bytes(raw) if v['frozen'] else raw
    a = np.ndarray((2, 3), dt, buf, v['skew'] + v['off'] * n, (v['s0'] * n, v['s1'] * n))
    if v['wrap'] == 'subclass':
        a = a.view(Tagged)
    return a


def numbers(rng, v, lo, hi):
    if v['kind'][0] in 'iu':
        return rng.integers(max(1, int(np.ceil(lo))), int(hi) + 1, (2, 3))
    return rng.uniform(lo, hi, (2, 3))


RANGE = {'E': (0, 3), 'g': (1, 8), 'nuC': (.5, 30), 'nuQ': (.5, 12), 'sym': (1, 24), 'mom': (5, 400),
         'T': (900, 2000), 'obs': (0, 50), 'z': (.5, 9), 'w': (0, 4), 'v': (0, 4)}
SLOTS = sorted(RANGE)
WHICH = {'E': ('E', 0), 'g': ('E', 1), 'nuC': ('C', 0), 'nuQ': ('Q', 0), 'sym': ('R', 0), 'mom': ('R', 1),
         'z': ('U', 0), 'w': ('U', 1), 'v': ('U', 2)}


def h30(rng, i, h):
    s = Session('view %s' % h)
    mix = choice(rng, ['ECR', 'EQR', 'ECRU', 'EQ', 'EC', 'EQRU'])
    mine = [x for x in SLOTS if x in ('T', 'obs') or WHICH[x][0] in mix]
    mine = [x for x in mine if not (x == 'nuQ' and 'Q' not in mix)]
    many = [mine[int(k)] for k in rng.permutation(len(mine))[:3]]
    tables = {x: numbers(rng, h if x in many else {'kind': 'f8'}, *RANGE[x]) for x in mine}

    def arrays(x, given):
        a = store(h, tables[x]) if x in given else np.array(tables[x], dtype=float)
        if x == 'T':
            return a[1]
        return a if x in ('nuC', 'nuQ', 'mom', 'obs') else a[:, 1]

    def world(o, given, like=None):
        cs = []
        for k in mix:
            n = {'E': ['E', 'g'], 'C': ['nuC'], 'Q': ['nuQ'], 'R': ['sym', 'mom'], 'U': ['z', 'w', 'v']}[k]
            cs.append((k, [arrays(x, given) for x in n]))
        ks = reg(s, o, cs, choice(rng, HOWS))
        T, obs = arrays('T', given), arrays('obs', given)
        told = {}
        for w in 'PZCA':
            told[w] = s.q(o, w, T, obs=obs if w == 'A' else None, chk=['dist', 'weights'] if w == 'P' else [],
                          rel=[rel_value(like[w], 2 if w in 'PZ' else 1, 3)] if like else [], keep=False)
        for k, p in zip(mix, ks):
            if k == 'U':
                continue
            for w in 'ZWV':
                told[k, w] = s.pfq(p, w, T, rel=[rel_value(like[k, w], 2, 3)] if like else [], keep=False)
        return told
    base = world('a', [])
    for x in many:
        world('b' + x, [x], base)
    world('c', many, base)
    return s
