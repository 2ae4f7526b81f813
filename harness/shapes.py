"""Structures with exact coordinates in Z[phi] (see spec/Shapes.tla), and the part of them on which the
symmetry order is decidable: no near-symmetries within pymatgen's tolerances, no accidental degeneracy."""
import itertools

import numpy as np

PHI = (1 + 5 ** 0.5) / 2
MASS = {'H': 1.008, 'C': 12.011, 'N': 14.007, 'O': 15.999, 'Na': 22.98976928, 'Al': 26.9815385, 'Si': 28.085,
        'Cl': 35.45, 'Cu': 63.546, 'Ru': 101.07, 'Pd': 106.42, 'Ag': 107.8682, 'Pt': 195.084, 'Au': 196.966569}
PAIRS = [('C', 'H'), ('O', 'Ru'), ('Si', 'Cl'), ('Na', 'Cl'), ('Pt', 'C'), ('Cu', 'Au'), ('Pd', 'Al'), ('Ag', 'N'),
         ('Pt', 'Au'), ('Pt', 'Pt'), ('Na', 'Na'), ('Au', 'Au')]


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


# a point is ((a, b), (c, d), (e, f)): a + b phi, ...
def I(x, y, z):
    return ((x, 0), (y, 0), (z, 0))


def add(p, q):
    return tuple((a[0] + b[0], a[1] + b[1]) for a, b in zip(p, q))


def mul(k, p):
    return tuple((k * a[0], k * a[1]) for a in p)


def flt(p):
    return [a + b * PHI for a, b in p]


def _cyc(x, y, z):
    return [(x, y, z), (z, x, y), (y, z, x)]


ICOSA = sorted({q for a in (1, -1) for b in (1, -1) for q in _cyc((0, 0), (a, 0), (0, b))})
DODECA = sorted({I(a, b, c) for a in (1, -1) for b in (1, -1) for c in (1, -1)} |
                {q for a in (1, -1) for b in (1, -1) for q in _cyc((0, 0), (-a, a), (0, b))})
APEX = ((0, 0), (1, 0), (0, 1))
FIVE = [p for p in ICOSA if abs(np.sum((np.array(flt(p)) - flt(APEX)) ** 2) - 4) < 1e-9]
FIVE2 = [mul(-1, p) for p in FIVE]                   # staggered, on the other side
HEX = [I(a, b, -a - b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0) and abs(a + b) <= 1]
ORIGIN = I(0, 0, 0)

CUBE = []
for _pm in itertools.permutations(range(3)):
    for _s in itertools.product([1, -1], repeat=3):
        _m = np.zeros((3, 3), int)
        _m[range(3), _pm] = _s
        CUBE.append(_m)


def lattice_random(rng):
    R = int(rng.integers(1, 3))
    pts = list(itertools.product(range(-R, R + 1), repeat=3))
    n = int(rng.integers(3, 9))
    two = int(rng.integers(2))
    return [(int(rng.integers(2)) * two, I(*pts[int(k)])) for k in rng.permutation(len(pts))[:n]]


def lattice_orbits(rng):
    R = int(rng.integers(1, 3))
    pts = list(itertools.product(range(-R, R + 1), repeat=3))
    gens = [CUBE[int(rng.integers(48))] for _ in range(int(rng.integers(1, 3)))]
    G = {tuple(np.eye(3, dtype=int).ravel())}
    while True:
        new = {tuple((g @ np.array(h).reshape(3, 3)).ravel()) for g in gens for h in G} - G
        if not new:
            break
        G |= new
    S = {}
    for _ in range(int(rng.integers(1, 4))):
        p = np.array(choice(rng, pts))
        e = int(rng.integers(2))
        for g in sorted(G):
            S.setdefault(tuple(int(x) for x in np.array(g).reshape(3, 3) @ p), e)
    return [(e, I(*p)) for p, e in S.items()]


def fancy(rng):
    k = int(rng.integers(14))
    far = mul(int(rng.integers(2, 4)), APEX)
    if k == 0:
        S = [(0, p) for p in ICOSA]
    elif k == 1:
        S = [(0, p) for p in ICOSA] + [(1, ORIGIN)]
    elif k == 2:
        S = [(0, p) for p in DODECA]
    elif k == 3:
        S = [(0, p) for p in FIVE]
    elif k == 4:
        S = [(0, p) for p in FIVE] + [(int(rng.integers(2)), APEX)]
    elif k == 5:
        S = [(0, p) for p in FIVE] + [(0, add(p, far)) for p in FIVE]           # prism
    elif k == 6:
        S = [(0, p) for p in FIVE + FIVE2] + [(1, ORIGIN)]                      # antiprism
    elif k == 7:
        S = [(0, p) for p in HEX]
    elif k == 8:
        S = [(0, p) for p in HEX] + [(1, mul(2, p)) for p in HEX]               # benzene-like
    elif k == 9:
        S = [(0, p) for p in HEX] + [(1, I(2, 2, 2))]
    elif k == 10:
        S = [(0, p) for p in HEX] + [(0, add(p, I(1, 1, 1))) for p in HEX]
    elif k == 11:
        S = [(0, p) for p in ICOSA]
        for j in rng.permutation(12)[:int(rng.integers(1, 3))]:
            S[int(j)] = (1, S[int(j)][1])
    elif k == 12:
        S = [(0, p) for p in ICOSA]
        S.pop(int(rng.integers(12)))
    else:
        S = [(int(j % 2), p) for j, p in enumerate(sorted(HEX, key=lambda p: np.arctan2(
            np.dot(flt(p), [1, -1, 0]) / 2 ** .5, np.dot(flt(p), [1, 1, -2]) / 6 ** .5)))]
    return S


def linear(rng):
    d = choice(rng, [I(1, 0, 0), I(1, 1, 0), I(1, 1, 1), I(2, 1, 0), I(1, 2, 2)])
    n = int(rng.integers(2, 6))
    ks = sorted(int(x) for x in rng.permutation(9)[:n])
    return [(int(rng.integers(2)), mul(k, d)) for k in ks]


# -- the domain ------------------------------------------------------------------------------------

def xyz(S):
    return np.array([flt(p) for _, p in S], float)


def _rank(P):
    return np.linalg.matrix_rank(P - P[0], tol=1e-6)


def _isometries(sp, P, delta=1e-6, limit=130):
    n = len(sp)
    D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1))
    out = []

    def rec(im):
        k = len(im)
        if len(out) > limit:
            return
        if k == n:
            out.append(list(im))
            return
        for j in range(n):
            if j not in im and sp[j] == sp[k] and all(abs(D[k, f] - D[j, im[f]]) <= delta for f in range(k)):
                rec(im + [j])
    rec([])
    return out


def _top(w, tol):
    return 1 + int(w[1] - w[0] < tol) + int(w[2] - w[1] < tol)


def decidable(S, els, unit, delta=0.75):
    """no near-symmetry, and moments as degenerate as the symmetry forces them to be"""
    sp = [els[e] for e, _ in S]
    P = xyz(S)
    Q = P * unit
    sv = np.linalg.svd(Q - Q.mean(0))[1]
    D = np.sqrt(((Q[:, None] - Q[None]) ** 2).sum(-1)) + 99 * np.eye(len(S))
    if D.min() < 1.0 or sv[1] < 1.0 or (len(sv) > 2 and 1e-6 < sv[2] < 1.0):
        return False
    iso = _isometries(sp, Q)
    if len(iso) > 125 or len(_isometries(sp, Q, delta)) != len(iso):
        return False
    X = P - P.mean(0)
    mats = []
    flat = _rank(P) == 2
    for pi in iso:
        U, _, V = np.linalg.svd(X[pi].T @ X)
        R = U @ V
        mats.append(R)
        if flat:
            n = np.linalg.svd(X)[2][2]
            mats.append(R @ (np.eye(3) - 2 * np.outer(n, n)))
    A = np.array([[1., .3, -.7], [.3, 2.7, .2], [-.7, .2, 5.1]])
    forced = _top(np.linalg.eigvalsh(sum(R @ A @ R.T for R in mats) / len(mats)), 1e-6)
    m = np.array([MASS[s] for s in sp])
    X = P - (m[:, None] * P).sum(0) / m.sum()
    T = sum(a * (q @ q * np.eye(3) - np.outer(q, q)) for a, q in zip(m, X))
    if _top(np.linalg.eigvalsh(T / sum(a * (q @ q) for a, q in zip(m, X))), 0.03) != forced:
        return False
    if forced == 3:
        proper = sum(np.linalg.det(R) > 0 for R in mats)
        orbits = {frozenset(pi[a] for pi in iso) for a in range(len(S))}
        if proper == 12 and not any(len(o) == 4 for o in orbits):
            return False                     # listed finding KF5
    return True


def structure(rng, big=True):
    """-> (list of (element, point), unit in Angstrom)"""
    for _ in range(200):
        k = int(rng.integers(10))
        S = lattice_random(rng) if k < 3 else lattice_orbits(rng) if k < 7 else fancy(rng)
        if not 3 <= len(S) <= (26 if big else 9):
            continue
        els = choice(rng, PAIRS)
        if int(rng.integers(2)):
            els = els[::-1]
        if _rank(xyz(S)) < 2:
            continue
        unit = float(rng.uniform(2, 3))
        if int(rng.integers(6)) == 0:            # a distorted relative: one atom out of place
            S = [(e, mul(4, p)) for e, p in S]
            j = int(rng.integers(len(S)))
            S[j] = (S[j][0], add(S[j][1], I(*(int(x) for x in rng.integers(-2, 3, 3)))))
            unit /= 4
            if len({p for _, p in S}) < len(S) or _rank(xyz(S)) < 2:
                continue
        S = [S[int(j)] for j in rng.permutation(len(S))]
        if decidable(S, els, unit):
            return [(els[e], p) for e, p in S], unit
    raise RuntimeError('no structure found')


def cluster(rng):
    """a larger structure of several elements, as a rule without symmetry"""
    els = [str(x) for x in rng.permutation(sorted(MASS))[:int(rng.integers(1, 5))]]
    R = int(rng.integers(2, 4))
    pts = list(itertools.product(range(-R, R + 1), repeat=3))
    n = int(rng.integers(10, 41))
    for _ in range(50):
        S = [(int(rng.integers(len(els))), I(*pts[int(k)])) for k in rng.permutation(len(pts))[:n]]
        unit = float(rng.uniform(2, 3))
        if decidable(S, els, unit):
            return [(els[e], p) for e, p in S], unit
    return structure(rng)


POLYGONS = [[I(1, 0, 0), I(0, 1, 0), I(0, 0, 1)], [I(1, 0, 0), I(0, 1, 0), I(-1, 0, 0), I(0, -1, 0)], FIVE, HEX]
SOLIDS = [[I(1, 1, 1), I(1, -1, -1), I(-1, 1, -1), I(-1, -1, 1)],
          [I(a, 0, 0) for a in (1, -1)] + [I(0, a, 0) for a in (1, -1)] + [I(0, 0, a) for a in (1, -1)],
          [I(a, b, c) for a in (1, -1) for b in (1, -1) for c in (1, -1)], ICOSA, DODECA]


def equal_moments(rng):
    """two structures of different symmetry with the same principal moments"""
    for _ in range(200):
        kinds = choice(rng, [POLYGONS, SOLIDS])
        a, b = [kinds[int(k)] for k in rng.permutation(len(kinds))[:2]]
        ea, eb = (choice(rng, sorted(MASS)) for _ in 'ab')
        if int(rng.integers(2)):
            eb = ea
        m = [sum(MASS[e] * np.sum((np.array(flt(p)) - np.mean([flt(q) for q in S], axis=0)) ** 2) for p in S)
             for e, S in ((ea, a), (eb, b))]
        ua = float(rng.uniform(2, 4))
        ub = ua * (m[0] / m[1]) ** .5
        S = [[(0, p) for p in x] for x in (a, b)]
        if decidable(S[0], [ea], ua) and decidable(S[1], [eb], ub):
            return ([(ea, p) for p in a], ua), ([(eb, p) for p in b], ub)
    raise RuntimeError('no pair found')


def straight(rng):
    els = choice(rng, PAIRS)
    return [(els[e], p) for e, p in linear(rng)], float(rng.uniform(1.2, 2.5))


def turned(rng, P):
    """a random rotation and translation"""
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    q *= np.sign(np.linalg.det(q))
    return P @ q.T + rng.uniform(-1, 1, 3) * 10 ** rng.uniform(0, 3)
