"""Seeded generators of landscapes, temperature arrays and observables."""
import math
import numpy as np

KB = 8.617333262145e-5
H = 4.135667696e-3


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def disguise(rng, a):
    """same values, different memory layout / writability"""
    k = int(rng.integers(8))
    if k == 0:
        a = np.asfortranarray(a)
    elif k == 1:
        b = np.empty(tuple(2 * n for n in a.shape), dtype=a.dtype)
        b[...] = 77 if a.dtype.kind in 'iu' else np.nan
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        a = v
    elif k == 2:
        a = a[tuple(slice(None, None, -1) for _ in a.shape)].copy()
        a = a[tuple(slice(None, None, -1) for _ in a.shape)]
    elif k == 3:
        a = a.copy()
        a.flags.writeable = False
    return a


def energies(rng, N, style=None):
    style = style or choice(rng, ['small', 'small', 'dft', 'near', 'wide', 'int', 'levels', 'equal', 'near2', 'deep',
                                 'huge'])
    q = 2.0 ** -20
    if style == 'small':
        E = rng.integers(0, 1 << 19, N) * q
    elif style == 'dft':
        E = rng.integers(0, 1 << 20, N) * q - float(rng.integers(100, 200000))
    elif style == 'near':
        E = float(rng.integers(-50, 50)) + rng.integers(0, 40, N) * q
    elif style == 'near2':
        E = rng.integers(0, 6, N) * 2.0 ** -36
    elif style == 'deep':
        E = rng.integers(0, 6, N) * 2.0 ** -int(rng.integers(12, 31)) - float(rng.integers(10000, 200000))
    elif style == 'wide':
        E = rng.integers(-(1 << 26), 1 << 26, N) * q
    elif style == 'huge':
        E = rng.integers(-(1 << 36), 1 << 36, N) * q
    elif style == 'int':
        E = rng.integers(-6, 3, N)
    elif style == 'levels':
        lv = rng.integers(-(1 << 18), 1 << 18, 3) * q
        E = lv[rng.integers(0, 3, N)]
    else:
        E = np.full(N, float(rng.integers(-10, 10)))
    o = int(rng.integers(4))
    if o == 0:
        E = np.sort(E)
    elif o == 1:
        E = np.sort(E)[::-1].copy()
    return E


def spins(rng, N):
    k = int(rng.integers(6))
    if k == 0:
        return np.ones(N)
    if k == 1:
        return rng.integers(1, 10, N)
    if k == 3:
        return rng.integers(1, 2000, N)
    if k == 4:
        return 2.0 ** rng.uniform(-6, 6, N)
    if k == 2:
        return rng.integers(1, 8, N).astype(float)
    return np.full(N, 2)


def freqs(rng, N, D, style=None):
    style = style or choice(rng, ['typ', 'typ', 'organic', 'tiny', 'log', 'int', 'rows', 'flat', 'soft'])
    if style == 'typ':
        nu = rng.uniform(0.5, 10, (N, D))
    elif style == 'organic':
        nu = rng.uniform(1, 110, (N, D))
    elif style == 'tiny':
        nu = rng.uniform(0.01, 0.2, (N, D))
    elif style == 'log':
        nu = 10 ** rng.uniform(-2, 2.1, (N, D))
    elif style == 'int':
        nu = rng.integers(1, 40, (N, D))
    elif style == 'rows':
        nu = np.tile(rng.uniform(0.5, 20, (1, D)), (N, 1)) * rng.uniform(0.98, 1.02, (N, 1))
    elif style == 'flat':
        nu = np.full((N, D), float(rng.uniform(0.3, 30)))
    else:
        nu = rng.uniform(1, 30, (N, D))
        nu[:, 0] = rng.uniform(0.02, 0.3, N)
    o = int(rng.integers(3))
    if o == 0:
        nu = np.sort(nu, axis=1)
    elif o == 1:
        nu = np.sort(nu, axis=1)[:, ::-1].copy()
    if int(rng.integers(6)) == 0 and nu.dtype.kind == 'f':
        nu = nu.astype(np.longdouble)
    return nu


def rot(rng, N):
    sym = rng.choice([1, 1, 2, 3, 4, 6, 8, 10, 12, 24, 60], N)
    if int(rng.integers(3)) == 0:
        sym = sym.astype(float)
    st = int(rng.integers(4))
    if st == 0:
        mom = rng.uniform(1, 1000, (N, 3))
    elif st == 1:
        mom = 10 ** rng.uniform(-1, 4, (N, 1)) * rng.uniform(0.5, 2, (N, 3))
    elif st == 2:
        mom = rng.integers(1, 500, (N, 3))
    else:
        mom = rng.uniform(1, 1000, (N, 1)) * np.ones((1, 3))
    if mom.dtype.kind == 'f':
        mom = np.sort(mom, axis=1)
        for a in range(N):
            if int(rng.integers(4)) == 0:        # linear structure
                big = mom[a, 2]
                noise = choice(rng, [0.0, 0.0, 1e-15, -1e-15, 1e-12, -1e-12, -1e-9, 1e-9]) * max(big, 1.0)
                mom[a] = (noise, big, big * choice(rng, [1.0, 1 + 2e-16, 1.0]))
            elif int(rng.integers(6)) == 0:          # all but linear
                mom[a] = mom[a, 2] * np.array([10 ** rng.uniform(-4.9, -2), 1.0, 1.0])
        if int(rng.integers(3)) == 0:
            mom = mom[:, rng.permutation(3)].copy()
    return sym, mom


def user(rng, N):
    return rng.uniform(0.01, 20, N), rng.uniform(-5, 5, N), rng.uniform(0, 5, N)


def contrib(rng, kind, N, D=None, **kw):
    if kind == 'E':
        return ('E', [disguise(rng, energies(rng, N, kw.get('estyle'))), disguise(rng, spins(rng, N))])
    if kind in 'CQ':
        return (kind, [disguise(rng, freqs(rng, N, D, kw.get('fstyle')))])
    if kind == 'R':
        s, m = rot(rng, N)
        return ('R', [disguise(rng, s), disguise(rng, m)])
    if kind == 'X':
        return ('X', [disguise(rng, 2.0 ** rng.uniform(-12, 0, N)), disguise(rng, rng.integers(1, 9, N) * 0.5)])
    return ('U', [disguise(rng, x) for x in user(rng, N)])


MIXES = ['E', 'C', 'Q', 'R', 'EC', 'EQ', 'ER', 'CR', 'QR', 'ECR', 'EQR', 'CQ', 'ECQR', 'U', 'EU', 'QU', 'ECRU', 'EQRU', 'X', 'EX', 'QX', 'ECRX']


def size(rng, big=True):
    k = int(rng.integers(12))
    if k == 0:
        return 1
    if k <= 3:
        return 2
    if k <= 8:
        return int(rng.integers(3, 9))
    if k <= 10 or not big:
        return int(rng.integers(9, 25))
    if int(rng.integers(4)) == 0:
        return int(choice(rng, [65, 101, 130, 200, 257, 300, 520, 1030]))
    return int(rng.integers(25, 61))


def modes(rng, N, M=None, many=False):
    k = int(rng.integers(13))
    if k == 12:
        return int(choice(rng, [65, 101, 120, 150])) if int(rng.integers(3)) == 0 else 3
    if k == 0:
        return 1
    if k == 1:
        return max(1, N)
    if k == 2 and M and M <= 40:
        return M
    if k == 3:
        return 9
    if k == 4 and many:
        return int(rng.integers(100, 400))
    if k <= 6:
        return int(rng.integers(20, 61))
    return int(rng.integers(2, 16))


def landscape(rng, mix=None, N=None, D=None, many=False, **kw):
    mix = mix or choice(rng, MIXES)
    N = N or size(rng)
    if D is None:
        D = modes(rng, N, None, many and 'Q' not in mix)
    if N * D > 900:
        D = max(1, 900 // N)
    return [contrib(rng, k, N, D, **kw) for k in mix]


def nmin(cs):
    return len(cs[0][1][0])


def has(cs, kind):
    return any(k == kind for k, _ in cs)


def rel_energy(cs):
    """sum over electronic contributions of energies above ground (eV)"""
    r = np.zeros(nmin(cs))
    for k, a in cs:
        if k == 'E':
            e = np.asarray(a[0], dtype=float)
            r = r + (e - e.min())
    return r


def zpe(cs):
    r = np.zeros(nmin(cs))
    for k, a in cs:
        if k == 'Q':
            r = r + 0.5 * H * np.asarray(a[0], dtype=float).sum(axis=1)
    return r


def max_rel(cs):
    return max([0.0] + [float(np.ptp(np.asarray(a[0], dtype=float))) for k, a in cs if k == 'E'])


def aligned(cs):
    """the T = 0 reply of the library is the limit: same lowest minima with and without zero point"""
    if not has(cs, 'Q'):
        return sum(k == 'E' for k, _ in cs) <= 1
    if sum(k == 'E' for k, _ in cs) != 1:
        return False
    e, z = rel_energy(cs), zpe(cs)
    t = e + z
    lo = e == 0
    return bool(np.all(np.abs((t - t.min())[lo]) == 0) and np.all((t - t.min())[~lo] > 0)
                and len(set(z[lo])) == 1)


def usable(cs, T):
    """inside the range where the library's floating point can represent the answer
    (outside it: known findings F1, F2)"""
    if T == 0 or math.isinf(T):
        return True
    if max_rel(cs) / T > 1e303:                   # E / kB T itself is beyond double precision
        return False
    if not has(cs, 'Q'):
        return sum(k == 'E' for k, _ in cs) <= 1 or max_rel(cs) / (KB * T) < 600
    x = zpe(cs) / (KB * T)
    e = rel_energy(cs) / (KB * T)
    if x.max() > 11000:
        return False
    lw = -(x + e)
    return bool(np.all((e < 690) | (lw < lw.max() - 760)))


def t_floor(cs):
    """a temperature from which on everything is usable"""
    t = 1e-3
    if has(cs, 'Q'):
        t = max(t, zpe(cs).max() / KB / 11000 * 1.01, rel_energy(cs).max() / KB / 690 * 1.01)
    elif sum(k == 'E' for k, _ in cs) > 1:
        t = max(t, rel_energy(cs).max() / KB / 600)
    return t


def temps(rng, cs, M=None, zero='maybe', hot='maybe', lo=None, hi=None, dup=True):
    """temperature array suited to the landscape"""
    N = nmin(cs)
    if M is None:
        M = choice(rng, [1, 2, 3, 5, 8, 20, N, N, 60, 200, 501])
    fl = max(t_floor(cs), lo or 0)
    top = hi or 1e5
    st = int(rng.integers(7))
    if st == 0:
        T = np.linspace(max(fl, 1), max(fl * 2, 500), M)
    elif st == 1:
        T = np.exp(rng.uniform(math.log(fl), math.log(max(top, fl * 2)), M))
    elif st == 2:
        T = np.arange(1, M + 1) * max(1.0, math.ceil(fl))
    elif st == 3:
        T = rng.uniform(max(fl, 5), max(fl * 3, 800), M)
    elif st == 4:
        T = np.sort(np.exp(rng.uniform(math.log(fl), math.log(max(2000, fl * 20)), M)))[::-1].copy()
    elif st == 5:
        T = rng.integers(max(1, math.ceil(fl)), max(1000, math.ceil(fl) * 3), M)
    else:
        T = np.full(M, max(300.0, fl))
        T[rng.integers(0, M, max(1, M // 2))] *= 2
    if not has(cs, 'Q') and sum(k == 'E' for k, _ in cs) <= 1 and T.dtype.kind == 'f' and lo is None:
        if int(rng.integers(5)) == 0:
            T[int(rng.integers(M))] = choice(rng, [1e-3, 1e-6, 1e-12, 1e-30, 1e-300])
    if dup and M > 2 and int(rng.integers(4)) == 0:
        T[int(rng.integers(M))] = T[int(rng.integers(M))]
    if has(cs, 'Q'):
        ok_zero = aligned(cs)
    else:
        ok_zero = sum(k == 'E' for k, _ in cs) <= 1
    if zero == 'dist':
        ok_zero = sum(k == 'E' for k, _ in cs) <= 1
        zero = 'maybe'
    if ok_zero and zero and (zero == 'yes' or int(rng.integers(2)) == 0):
        for _ in range(int(rng.integers(1, 3))):
            T[choice(rng, [0, M - 1, int(rng.integers(M))])] = 0
    if hot and not has(cs, 'Q') and T.dtype.kind == 'f' and (hot == 'yes' or int(rng.integers(5)) == 0):
        T[int(rng.integers(M))] = np.inf
    if T.dtype.kind == 'f' and int(rng.integers(10)) == 0:
        T = T.astype(np.longdouble)
    elif T.dtype.kind == 'i' and int(rng.integers(3)) == 0:
        T = T.astype(choice(rng, [np.int32, np.int16]) if T.max() < 30000 else np.int32)
    if M > 1 and T.dtype.kind == 'f' and int(rng.integers(5)) == 0:        # neighbours that all but coincide
        j = int(rng.integers(M - 1))
        if 0 < T[j] < np.inf and T[j + 1] > 0:
            T[j + 1] = T[j] * (1 + choice(rng, [1e-4, 1e-6, -1e-6, 1e-8, 1e-10]))
    T2 = np.array([t if usable(cs, float(t)) else math.ceil(fl) for t in T], dtype=T.dtype)
    return disguise(rng, T2)


def pick_cols(rng, T, n=5):
    """columns to record: special temperatures first"""
    M = len(T)
    if M <= n:
        return list(range(M))
    sp = [j for j in range(M) if T[j] == 0 or np.isinf(T[j])]
    out = set(int(x) for x in rng.permutation(sp)[:2])
    out |= {0, M - 1}
    while len(out) < n:
        out.add(int(rng.integers(M)))
    return sorted(out)[:n]


def observable(rng, N, M, nice=False):
    k = int(rng.integers(5))
    if k == 0:
        b = rng.normal(size=(N, 1)) * 10 ** rng.uniform(-3, 3)
    elif k == 1:
        b = rng.normal(size=(N, M))
    elif k == 2:
        b = rng.integers(-5, 6, (N, M)) if not nice else rng.integers(-5, 6, (N, M)).astype(float)
    elif k == 3:
        b = np.full((N, 1), float(rng.normal()))
    else:
        b = np.arange(N)[:, None] + rng.normal(size=(1, M)) * 100
    return b
