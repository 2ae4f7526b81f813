"""Per-property drivers: each returns one recorded Session."""
import math
import numpy as np

from rec import Session, rel_value
from bf import bf
import gen
from gen import choice


def reg(s, o, cs, how=None, rng=None):
    """register contributions cs in object o; returns pf event numbers"""
    ks = [s.pf(k, *a) for k, a in cs]
    s.new(o)
    if how == 'each':
        for k in ks:
            s.add(o, [k], 'one')
    else:
        s.add(o, ks, how or 'list')
    return ks


HOWS = ['list', 'list', 'tuple', 'each', 'gen', 'listmut']


def setup(rng, s, o='a', mix=None, **kw):
    cs = gen.landscape(rng, mix, **kw)
    ks = reg(s, o, cs, choice(rng, HOWS))
    return cs, ks


def suspects(rng, s, o, T, n=2):
    """columns whose values differ most between the whole request and parts of it: which columns are recorded is no
    verdict, the recorded replies are judged by the specification"""
    M = len(T)
    if M < 4:
        return []
    order = rng.permutation(M)
    worst = np.zeros(M)
    for meth in ('calc_probability', 'calc_heat_capacity'):
        fn = getattr(s.objs[o], meth)
        with np.errstate(all='ignore'):
            whole, _ = s.call(fn, np.array(T))
            for idx in (order[:M // 2], order[M // 2:]):
                part, _ = s.call(fn, np.array(T)[idx].copy())
                try:
                    a, b = np.asarray(whole, dtype=float)[:, idx], np.asarray(part, dtype=float)
                    d = np.abs(a - b) / (np.abs(a) + np.abs(b) + 1e-300)
                    d = np.where(np.isnan(d), 1. * (np.isnan(a) != np.isnan(b)), d).max(axis=0)
                    worst[idx] = np.maximum(worst[idx], d)
                except (ValueError, IndexError, TypeError):
                    pass
    return [int(j) for j in np.argsort(-worst)[:n] if worst[j] > 0]


def c01(rng, i):
    s = Session('C01 #%d' % i)
    mix = choice(rng, gen.MIXES + ['EE', 'CC', 'EEQ', 'RR', 'EUU', 'XX', 'EUX'])
    cs, ks = setup(rng, s, mix=mix, many=True)
    for _ in range(2):
        T = gen.temps(rng, cs, zero='dist')
        if len(T) * gen.nmin(cs) * max([1] + [a[0].shape[1] for k, a in cs if k in 'CQ']) > 400000:
            T = T[:20]
        p, _ = s.call(s.objs['a'].calc_probability, np.array(T))
        cols = gen.pick_cols(rng, T, 8)
        if isinstance(p, np.ndarray) and p.ndim == 2 and p.shape[1] == len(T):
            off = np.abs(np.sum(p, axis=0) - 1)
            cols = sorted(set(cols) | {int(np.argmax(np.where(np.isnan(off), np.inf, off))), int(np.argmin(p.min(axis=0)))})
        s.q('a', 'P', T, cols, chk=['dist'])
    T = gen.temps(rng, cs, M=choice(rng, [1, 4]), zero='dist')
    s.q('a', 'Z', T, chk=['nonneg'])
    return s


def c02(rng, i):
    s = Session('C02 #%d' % i)
    cs, ks = setup(rng, s, mix='E')
    sp = np.ptp(np.asarray(cs[0][1][0], dtype=float)) or 1.0
    # temperatures where some Boltzmann factors are neither 1 nor 0
    T = gen.temps(rng, cs, zero=None, M=choice(rng, [1, 5, gen.nmin(cs), 40]))
    s.q('a', 'P', T, gen.pick_cols(rng, T), chk=['dist', 'weights'])
    T2 = sp / gen.KB / np.exp(rng.uniform(math.log(0.01), math.log(690), 6))
    s.q('a', 'P', T2, chk=['dist', 'weights'])
    s.q('a', 'Z', T2[:3].copy(), chk=['weights'])
    s.pfq(ks[0], 'Z', T2[3:].copy(), chk=['weights'])
    return s


def c03(rng, i):
    s = Session('C03 #%d' % i)
    mix = choice(rng, ['E', 'EC', 'EQ', 'ER', 'ECR', 'EQR', 'EU', 'EQRU', 'EX', 'ERX'])
    cs = gen.landscape(rng, mix, estyle=choice(rng, ['small', 'near', 'int', 'levels', 'equal', 'wide']))
    N = gen.nmin(cs)
    reg(s, 'a', cs)
    T = gen.temps(rng, cs, M=choice(rng, [1, 3, 6, N, 30]))
    cols = gen.pick_cols(rng, T)
    obs = gen.observable(rng, N, len(T))
    base = {w: s.q('a', w, T, cols, obs=obs if w == 'A' else None) for w in 'PCAZ'}
    for j in range(2):
        E = cs[0][1][0]
        off = float(choice(rng, [1, -1])) * choice(rng, [float(rng.integers(1, 100)), float(rng.integers(100, 1 << 20)),
                                                         float(rng.integers(1, 1 << 30)), 0.5, 2.0 ** -10])
        if E.dtype.kind == 'i' and off == int(off) and int(rng.integers(2)):
            off = int(off)
        cs2 = [('E', [gen.disguise(rng, E + off), cs[0][1][1]])] + cs[1:]
        reg(s, 'b%d' % j, cs2)
        for w in 'PCA':
            s.q('b%d' % j, w, T, cols, obs=obs if w == 'A' else None,
                rel=[rel_value(base[w], N if w in 'PZ' else 1, len(cols))])
        s.q('b%d' % j, 'Z', T, cols, rel=[rel_value(base['Z'], N, len(cols), kind='ratio')])
    return s


def c04(rng, i):
    s = Session('C04 #%d' % i)
    mix = choice(rng, ['E', 'EC', 'ER', 'ECR', 'EU', 'EQ', 'EQR', 'EQ', 'EX'])
    N = gen.size(rng, False)
    cs = gen.landscape(rng, mix, N=N, estyle=choice(rng, ['small', 'dft', 'near', 'near2', 'deep', 'int', 'levels', 'equal']),
                       fstyle=choice(rng, ['typ', 'soft', 'int', 'log']))
    E = np.array(cs[0][1][0], dtype=float)
    if 'Q' in mix:
        # lowest energies also lowest with zero-point energy: ground states get equal, smallest sums
        c = [c for c in cs if c[0] == 'Q'][0]
        nu = np.array(c[1][0], dtype=float)
        g = np.flatnonzero(E == E.min())
        a0 = int(np.argmin(nu.sum(axis=1)))
        row = nu[a0].copy()
        nu[a0] = nu[g[0]]
        nu[g] = row
        c[1][0] = nu
        if not gen.aligned(cs):
            return c04(rng, i)
    reg(s, 'a', cs, choice(rng, HOWS))
    T = gen.temps(rng, cs, M=choice(rng, [1, 2, 3, 7, N]), zero='yes')
    if not np.any(T == 0):
        T = np.append(T, 0).astype(T.dtype)
    z = [int(j) for j in np.flatnonzero(T == 0)][:2]
    cols = sorted(set(z + gen.pick_cols(rng, T, 2)))
    obs = gen.observable(rng, N, len(T))
    if int(rng.integers(2)) and obs.dtype.kind == 'f':
        obs = obs.copy()
        obs[E > E.min()] = choice(rng, [np.inf, np.nan, -np.inf])
        cols = z
    s.q('a', 'Z', T, cols, chk=['nonneg', 'zeroT'])
    p = s.q('a', 'P', T, cols, chk=['dist', 'zeroT'])
    s.q('a', 'C', T, cols, chk=['finite'])
    s.q('a', 'A', T, cols, obs=obs, chk=['finite'] if cols == z else [],
        rel=[rel_value(p, 1, len(cols), kind='mean')])
    # limit from above: a temperature low enough that everything else has died out
    e = gen.rel_energy(cs) + gen.zpe(cs)
    d = np.sort(e - e.min())
    gap = min([d[d > 0][0] if np.any(d > 0) else 1.0] + [float(a[0].min()) for k, a in cs if k == 'X'])
    tt = gap / gen.KB / 200
    if gen.usable(cs, tt) and 'Q' not in mix:
        obs = gen.observable(rng, N, 1, nice=True)[:, :1].copy()
        T0, T1 = np.array([0.0]), np.array([tt])
        for w in 'PAC':
            k = s.q('a', w, T0, obs=obs if w == 'A' else None)
            s.q('a', w, T1, obs=obs if w == 'A' else None,
                rel=[rel_value(k, N if w == 'P' else 1, 1, kind='limit',
                               tol=1e-60 * (1 + float(np.abs(obs).max())) if w != 'C' else 1e-60)])
    elif 'Q' in mix:
        # with quantum vibrations the heat capacity of the modes also has to freeze out
        nus = np.concatenate([np.asarray(a[0], dtype=float).ravel() for k, a in cs if k == 'Q'])
        tt = min(tt, 0.5 * gen.H * nus.min() / gen.KB / 60)
        if gen.usable(cs, tt):
            T0, T1 = np.array([0.0]), np.array([tt])
            for w in 'P':
                k = s.q('a', w, T0)
                s.q('a', w, T1, rel=[rel_value(k, N, 1, kind='limit', tol=1e-30)])
    return s


def c05(rng, i):
    s = Session('C05 #%d' % i)
    mix = choice(rng, ['E', 'EC', 'ER', 'ECR', 'EQ', 'EQR', 'Q', 'C', 'CR', 'U', 'EU', 'EX'])
    cs = gen.landscape(rng, mix, D=int(choice(rng, [1, 2, 3, 6, 9, 24])),
                       estyle=choice(rng, ['small', 'near', 'levels', 'dft']), fstyle=choice(rng, ['typ', 'tiny', 'rows', 'int', 'organic']))
    N = gen.nmin(cs)
    ks = reg(s, 'a', cs, choice(rng, HOWS))
    scale = (gen.rel_energy(cs).max() + gen.zpe(cs).max() + 1e-6) / gen.KB
    T = scale * np.array([10.0, 1e3, 1e5, 1e7])
    if 'Q' not in mix:
        T = np.append(T, np.inf)
        s.q('a', 'C', T[-1:].copy(), chk=['finite', 'heat'])
    s.q('a', 'P', T, chk=['dist', 'hot'])
    if 'Q' in mix:
        # same minima, classical description
        cs2 = [('C' if k == 'Q' else k, a) for k, a in cs]
        reg(s, 'b', cs2, choice(rng, HOWS))
        Th = T[1:].copy()
        for w in 'PC':
            k = s.q('b', w, Th)
            for j, t in enumerate(Th):
                nus = np.asarray([a[0] for kk, a in cs if kk == 'Q'][0], dtype=float)
                x = 0.5 * gen.H * nus / gen.KB / t
                x2 = float((x ** 2).sum(axis=1).max())
                e = float(gen.rel_energy(cs).max() / gen.KB / t)
                D = nus.shape[1]
                tol = x2 if w == 'P' else 4 * x2 * (1 + D + e) ** 2
                s.q('a', w, Th[j:j + 1].copy(),
                    rel=[rel_value(k, N if w == 'P' else 1, 1, cols=[j], kind='limit', tol=tol + 1e-9 * (1 + e) if w == 'P' else tol + 1e-9 * (1 + D + e) ** 2)])
    return s


def c06(rng, i):
    s = Session('C06 #%d' % i)
    cs = gen.landscape(rng)
    N = gen.nmin(cs)
    # make some minima identical
    idx = np.arange(N)
    if N > 1 and int(rng.integers(2)):
        for _ in range(int(rng.integers(1, 3))):
            idx[int(rng.integers(N))] = int(idx[int(rng.integers(N))])
    cs = [(k, [np.asarray(x)[idx] for x in a]) for k, a in cs]
    reg(s, 'a', cs, choice(rng, HOWS))
    T = gen.temps(rng, cs, M=choice(rng, [1, 3, N, 12]))
    cols = gen.pick_cols(rng, T, 4)
    obs = gen.observable(rng, N, len(T))
    whats = 'ZPCA'
    base = {w: s.q('a', w, T, cols, obs=obs if w == 'A' else None) for w in whats}
    twin = [int(np.flatnonzero(idx == idx[a])[-1]) for a in range(N)]
    if twin != list(range(N)):
        for w in 'ZP':
            s.q('a', w, T, cols, rel=[rel_value(base[w], N, len(cols), rows=twin)])
    perms = [rng.permutation(N), np.arange(N)[::-1]] if N > 1 else [np.arange(N)]
    for j, p in enumerate(perms):
        o = 'p%d' % j
        reg(s, o, [(k, [gen.disguise(rng, x[p]) for x in a]) for k, a in cs], choice(rng, HOWS))
        for w in whats:
            s.q(o, w, T, cols, obs=gen.disguise(rng, obs[p]) if w == 'A' else None,
                rel=[rel_value(base[w], N, len(cols), rows=p) if w in 'ZP' else rel_value(base[w], 1, len(cols))])
    return s


def c07(rng, i):
    s = Session('C07 #%d' % i)
    cs = gen.landscape(rng)
    N = gen.nmin(cs)
    ks = reg(s, 'a', cs, choice(rng, HOWS))
    D = max([1] + [a[0].shape[1] for k, a in cs if k in 'CQ'])
    T = np.asarray(gen.temps(rng, cs, M=choice(rng, [2, 3, N, D, 7, 25, 100] + ([501, 1000, 1030, 2100, 5000] if N * D < 60 else [11])), hot=None))
    if int(rng.integers(3)) == 0 and T.dtype.kind == 'f' and len(T) > 1:
        T = np.array(T)
        for j in range(0, len(T) - 1, 2):            # pairs of temperatures that all but coincide
            if 0 < T[j] < np.inf:
                T[j + 1] = T[j] * (1 + choice(rng, [1e-3, 1e-5, 1e-6, 1e-7, 1e-9]))
    elif int(rng.integers(5)) == 0 and T.dtype.kind == 'f' and len(T) > 3:       # a grid that is not quite uniform
        t0, dt = max(300.0, gen.t_floor(cs) * 2), choice(rng, [1.0, 0.5, 10.0])
        T = t0 + dt * (np.arange(len(T)) + choice(rng, [1e-3, 1e-5, 1e-7]) * rng.uniform(-1, 1, len(T)))
    M = len(T)
    B = gen.observable(rng, N, M)
    cols = gen.pick_cols(rng, T, 4 if M > 5 else 5)
    worst = suspects(rng, s, 'a', T)
    cols = sorted(set(cols) | set(worst))
    whats = ['P', 'Z', 'C', 'A'] if int(rng.integers(2)) else ['P', 'C', 'A']
    base = {w: s.q('a', w, T, cols, obs=B if w == 'A' else None) for w in whats}
    pk = ks[int(rng.integers(len(ks)))]
    pbase = {w: s.pfq(pk, w, T, cols) for w in 'ZWV'}

    def variant(T2, src, rec):
        """T2[j] = T[cols[src[j]]] for the recorded columns rec"""
        for w in whats:
            b = None
            if w == 'A':
                b = B if B.shape[1] == 1 else np.ascontiguousarray(B[:, idx])
            s.q('a', w, T2, rec, obs=b,
                rel=[rel_value(base[w], N if w in 'ZP' else 1, len(rec), cols=src)])
        for w in 'ZWV':
            s.pfq(pk, w, T2, rec, rel=[rel_value(pbase[w], N, len(rec), cols=src)])

    for _ in range(3):
        v = int(rng.integers(7))
        if v == 0:                                   # one temperature alone
            c = int(rng.integers(len(cols))) if not worst else cols.index(worst[0])
            idx = [cols[c]]
            variant(T[idx].copy(), [c], [0])
        elif v == 1:                                 # reversed
            idx = list(range(M))[::-1]
            variant(T[::-1], list(range(len(cols)))[::-1], [M - 1 - c for c in cols][::-1])
        elif v == 2:                                 # recorded columns only, shuffled, repeated
            src = [int(x) for x in rng.integers(0, len(cols), int(choice(rng, [2, 3, N, D, 9])))][:9]
            idx = [cols[c] for c in src]
            variant(T[idx].copy(), src, list(range(len(src))))
        elif v == 3:                                 # other temperatures added around
            ex = np.array(gen.temps(rng, cs, M=3, hot=None), dtype=float)
            if int(rng.integers(2)):
                ex[int(rng.integers(3))] = max(300.0, gen.t_floor(cs))
            n0 = len(ex)
            idx = list(rng.integers(0, M, n0)) + list(range(M))
            T2 = np.concatenate([ex, T.astype(np.promote_types(T.dtype, float))])
            variant(T2, list(range(len(cols))), [n0 + c for c in cols])
        elif v == 4:                                 # another numeric type
            idx = list(range(M))
            if T.dtype.kind in 'iu':
                T2 = T.astype(choice(rng, [float, np.longdouble, np.int64, np.int32]))
            elif np.all(T == np.floor(T)) and np.all(T < 2 ** 30):
                T2 = T.astype(choice(rng, [np.int64, np.int32, np.longdouble]))
            else:
                T2 = T.astype(np.longdouble)
            variant(T2, list(range(len(cols))), cols)
        elif v == 5:                                 # with or without 0 K
            idx = [c for c in range(M) if T[c] != 0]
            if idx:
                src = [j for j, c in enumerate(cols) if T[c] != 0]
                if src:
                    variant(T[idx].copy(), src, [idx.index(cols[j]) for j in src])
        else:                                        # strided / read-only view
            idx = list(range(M))
            variant(gen.disguise(rng, T), list(range(len(cols))), cols)
    return s


def c08(rng, i):
    s = Session('C08 #%d' % i)
    mix = choice(rng, ['EC', 'EQ', 'ECR', 'EQR', 'CQ', 'EU', 'ECQRU', 'UU', 'RR', 'CC', 'EUU', 'QQ', 'EQRU', 'CRU', 'EX', 'XC', 'EUX', 'XX'])
    N = gen.size(rng, False)
    cs = gen.landscape(rng, mix, N=N)
    if int(rng.integers(8)) == 0 and 'Q' not in mix and mix != 'EX':
        # many contributions, some with weights only extended precision holds
        cs = cs + [gen.contrib(rng, choice(rng, 'CRUC'), N, int(choice(rng, [3, 60, 110]))) for _ in range(int(rng.integers(4, 9)))]
    ks = [s.pf(k, *a) for k, a in cs]
    rep = int(rng.integers(3)) == 0 and 'Q' not in mix
    order = list(ks)
    if rep:
        r = choice(rng, [k for k, c in zip(ks, cs) if c[0] != 'E'])
        order.append(r)
    T = gen.temps(rng, cs + ([('Q', a) for k, a in cs if k == 'Q'] if mix == 'QQ' else []), M=choice(rng, [1, 2, N, 6]), zero=None)
    cols = gen.pick_cols(rng, T, 3)
    n = len(cols)
    own = {w: {k: s.pfq(k, w, T, cols) for k in ks} for w in 'ZWV'}

    def ask(o, seq, first=None):
        z = s.q(o, 'Z', T, cols, rel=[{'kind': 'product', 'ks': [own['Z'][k] for k in seq]}])
        p = s.q(o, 'P', T, cols, rel=[{'kind': 'normal', 'k': z}])
        rel = [{'kind': 'fluct', 'k': p, 'ws': [own['W'][k] for k in seq], 'vs': [own['V'][k] for k in seq]}]
        if first:
            rel.append(rel_value(first[1], 1, n))
        h = s.q(o, 'C', T, cols, rel=rel)
        return z, h, p

    s.system('a', order, choice(rng, ['list', 'tuple', 'gen', 'listmut']))
    first = ask('a', order)
    # another order, one by one, with the answers after every addition
    p = [order[j] for j in rng.permutation(len(order))]
    s.new('b')
    for j, k in enumerate(p):
        s.add('b', [k], choice(rng, ['one', 'list', 'tuple']))
        ask('b', p[:j + 1], None if j + 1 < len(p) else first)
    # split into two collections
    cut = int(rng.integers(0, len(order) + 1))
    p = [order[j] for j in rng.permutation(len(order))]
    s.new('c')
    if cut:
        s.add('c', p[:cut], choice(rng, ['list', 'gen', 'listmut']))
    s.add('c', p[cut:], choice(rng, ['list', 'tuple']))
    ask('c', p, first)
    # a factor common to all minima
    # (a tiny factor must not push weights out of double precision)
    low = np.asarray(T, dtype=float)
    low = low[low > 0].min() if np.any(low > 0) else 1.0
    f = float(choice(rng, [1e-30 if gen.rel_energy(cs).max() / gen.KB / low < 550 else 0.25, 0.5, 3.0, 1e40]))
    u = s.pf('U', np.full(N, f), np.zeros(N), np.zeros(N))
    s.system('d', order + [u], 'list')
    s.q('d', 'P', T, cols, rel=[rel_value(first[2], N, n)])
    s.q('d', 'C', T, cols, rel=[rel_value(first[1], 1, n)])
    return s


def c09(rng, i):
    """random histories over several objects sharing contributions, with a hostile caller"""
    s = Session('C09 #%d' % i)
    N = gen.size(rng, False)
    pool = gen.landscape(rng, choice(rng, ['ECQRU', 'ECR', 'EQRU', 'ECU', 'EQ', 'UUC', 'XUC', 'EX']), N=N)
    ks = [s.pf(k, *a) for k, a in pool]
    if int(rng.integers(3)) == 0:
        bad = gen.landscape(rng, 'C', N=N + 1)
        ks.append(s.pf('C', *bad[0][1]))
        pool.append(bad[0])
    objs = ['a', 'b', 'c'][:int(rng.integers(1, 4))]
    for o in objs:
        s.new(o)
    have = {o: [] for o in objs}
    Ts = [np.array(gen.temps(rng, [c for c in pool if len(c[1][0]) == N], M=choice(rng, [1, 2, 4, N]), zero=None))
          for _ in range(2)]
    content = [T.copy() for T in Ts]
    seen = {}
    scribble = int(rng.integers(2))
    for _ in range(int(rng.integers(12, 30))):
        o = choice(rng, objs)
        a = int(rng.integers(10))
        if a < 2:
            sel = [ks[int(x)] for x in rng.integers(0, len(ks), int(rng.integers(1, 3)))]
            if sum(s.defs[k][0] == 'E' for k in have[o] + sel) > 1 or len(have[o]) > 5:
                continue
            if sum(s.defs[k][0] == 'Q' for k in have[o] + sel) > 1:
                continue
            s.add(o, sel, 'one' if len(sel) == 1 and int(rng.integers(2)) else choice(rng, ['list', 'tuple', 'gen', 'listmut']))
            have[o] += sel
        elif a == 2:
            t = int(rng.integers(2))
            T = Ts[t]
            if T.flags.writeable and len(T):     # the caller edits its own temperature array
                j = int(rng.integers(len(T)))
                if len(T) > 2 and int(rng.integers(2)):
                    j = 1 + int(rng.integers(len(T) - 2))      # both ends stay
                if int(rng.integers(4)) == 0:
                    T[:] = T[::-1].copy()
                else:
                    T[j] = T[j] * 2 if T[j] < 1e4 else T[j]
        elif a == 3 and ks:
            k = choice(rng, ks)
            if s.defs[k][0] in 'UX':
                continue
            T = Ts[int(rng.integers(2))]
            w = choice(rng, 'ZWV')
            key = ('pf', k, w, tuple(float(x) for x in T))
            n = len(s.defs[k][1][0])
            rel = [rel_value(seen[key], n, len(T))] if key in seen else []
            seen[key] = s.pfq(k, w, T, rel=rel, keep=not scribble)
            if scribble and isinstance(s.last, np.ndarray) and s.last.flags.writeable:
                s.last[...] = 0.125
        else:
            w = choice(rng, 'PPZCA')
            T = Ts[int(rng.integers(2))]
            # same contributions, same temperatures (in any object): same answer
            key = (tuple(sorted(have[o])), w, tuple(float(x) for x in T))
            consistent = bool(have[o]) and len({len(s.defs[k][1][0]) for k in have[o]}) == 1
            n = len(s.defs[have[o][0]][1][0]) if have[o] else 1
            obs = np.arange(n * len(T), dtype=float).reshape(n, len(T)) % 7 - 3 if w == 'A' else None
            rel = []
            if consistent and key in seen:
                rel = [rel_value(seen[key], n if w in 'PZ' else 1, len(T))]
            k = s.q(o, w, T, obs=obs, rel=rel, keep=not scribble,
                    chk={'P': ['dist', 'weights'], 'C': ['heat']}.get(w, []) if consistent else [])
            if consistent:
                seen[key] = k
            if scribble and isinstance(s.last, np.ndarray) and s.last.flags.writeable:
                s.last[...] = 0.125              # the caller reuses the returned array
    return s


def c10(rng, i):
    s = Session('C10 #%d' % i)
    N = gen.size(rng, False)
    T = np.asarray(gen.temps(rng, gen.landscape(rng, 'C', N=N), M=choice(rng, [1, 2, N, N + 1, 5]), hot=None, zero=None))
    T = np.maximum(T, 50).astype(T.dtype)

    def ask(o, n):
        ws = ['Z', 'P', 'C', 'A']
        for w in [ws[int(j)] for j in rng.permutation(4)]:
            s.q(o, w, T, [0], obs=np.ones((n, len(T))) if w == 'A' else None, chk=['finite'] if w != 'Z' else [])
    s.new('a')
    s.new('z')
    ask('a', N)
    if int(rng.integers(2)):
        s.add('a', [], choice(rng, ['list', 'tuple']))
        ask('a', N)
    kinds = choice(rng, ['EC', 'CE', 'ER', 'RE', 'EU', 'CR', 'RU', 'EQ', 'QC', 'ECR', 'UU', 'CC', 'EE', 'QR', 'EX', 'XU'])
    other = choice(rng, [1, 1, N + 1, max(1, N - 1), 2 * N, N * 3])
    sizes = [N] * len(kinds)
    sizes[int(rng.integers(len(kinds)))] = other
    if int(rng.integers(4)) == 0:
        sizes = [N] * len(kinds)
    D = choice(rng, [1, 3, N, len(T)])
    D = min(D, 12)
    ks = []
    for kind, n in zip(kinds, sizes):
        k, a = gen.contrib(rng, kind, n, D, estyle='small', fstyle='typ')
        ks.append(s.pf(k, *a))
    if len(set(sizes)) == 1 and 'Q' not in kinds and kinds != 'EE':
        T = np.asarray(T)
    for j, k in enumerate(ks):
        s.add('a', [k], choice(rng, ['one', 'list']))
        ask('a', sizes[j])
    s.new('b')
    s.add('b', ks, 'list')
    ask('b', max(sizes))
    ask('z', N)          # another empty object is still empty
    return s


def c11(rng, i):
    s = Session('C11 #%d' % i)
    cs, ks = setup(rng, s)
    N = gen.nmin(cs)
    T = gen.temps(rng, cs, M=choice(rng, [1, 2, 5, N, 30]))
    M = len(T)
    cols = gen.pick_cols(rng, T, 5)
    n = len(cols)
    p = s.q('a', 'P', T, cols, chk=[])
    P = s.last

    def avg(b, rel=()):
        return s.q('a', 'A', T, cols, obs=b, rel=[{'kind': 'mean', 'k': p}, {'kind': 'bounds', 'k': p}] + list(rel))
    b1 = gen.observable(rng, N, M)
    b2 = gen.observable(rng, N, M)
    k1, k2 = avg(gen.disguise(rng, b1)), avg(b2)
    al, ga = float(rng.integers(-8, 9)), float(rng.integers(-8, 9)) / 4
    if b1.shape == b2.shape:
        b3 = al * b1 + ga * b2
        sc = float(np.abs(al) * np.abs(b1).max() + np.abs(ga) * np.abs(b2).max())
        avg(b3, [{'kind': 'linear', 'k': k1, 'k2': k2, 'alpha': bf(al), 'gamma': bf(ga), 'scale': bf(sc)}])
    c = float(rng.integers(-50, 50))
    avg(np.full((N, choice(rng, [1, M])), c))
    # values at minima that are not populated must not matter
    if isinstance(P, np.ndarray) and P.shape == (N, M):
        dead = ~np.any(P > 0, axis=1)
        b = np.array(np.broadcast_to(b1, (N, M)), dtype=float)
        deadcells = ~(np.asarray(P) > 0)
        if np.any(deadcells):
            b[deadcells] = choice(rng, [np.inf, -np.inf, np.nan, 1e308])
            avg(b)
        if int(rng.integers(4)) == 0:                 # at a populated minimum they do
            b = np.array(np.broadcast_to(b1, (N, M)), dtype=float)
            for _ in range(int(rng.integers(1, 3))):
                b[int(rng.integers(N))] = choice(rng, [np.inf, np.inf, -np.inf, np.nan])
            avg(b)
        if np.any(dead):
            bb = rng.normal(size=(N, 1))
            bb[dead] = choice(rng, [np.inf, np.nan])
            avg(bb)
    # the probabilities themselves as observable
    if isinstance(P, np.ndarray) and P.shape == (N, M):
        avg(np.array(P, dtype=float))
    return s


def _unit_rel(k, n, m, **kw):
    return rel_value(k, n, m, kind='ratio', **kw)


def c12(rng, i):
    s = Session('C12 #%d' % i)
    N = gen.size(rng)
    D = int(choice(rng, [1, 2, 3, 6, 9, N, 30, 57, 120, 294, 600]))
    if N * D > 3000:
        N = max(2, 3000 // D)
    nu = gen.freqs(rng, N, D)
    k = s.pf('C', gen.disguise(rng, nu))
    s.system('a', [k], choice(rng, ['one', 'list']))
    cs = [('C', [nu])]
    T = gen.temps(rng, cs, M=choice(rng, [1, 2, N, D if D < 50 else 4]))
    cols = gen.pick_cols(rng, T, 2)
    s.q('a', 'P', T, cols, chk=['dist', 'weights'])
    z = s.pfq(k, 'Z', T, cols, chk=['weights'])
    # the same at any other temperature
    s.pfq(k, 'W', T, cols, chk=['deriv'])
    s.pfq(k, 'V', T, cols, chk=['deriv'])
    s.q('a', 'C', T, cols, chk=['heat'])
    # order of the modes, unit of frequency
    k2 = s.pf('C', gen.disguise(rng, nu[:, rng.permutation(D)]))
    s.pfq(k2, 'Z', T, cols, rel=[_unit_rel(z, N, len(cols))])
    k3 = s.pf('C', nu * choice(rng, [2.0, 0.5, 4.0, 32.0] + ([2.0 ** -20, 2.0 ** 20, 2.0 ** -40, 2.0 ** 40] if D < 200 else [])))
    s.pfq(k3, 'Z', T, cols, chk=['weights'], rel=[_unit_rel(z, N, len(cols))])
    return s


def c13(rng, i):
    s = Session('C13 #%d' % i)
    N = gen.size(rng, False)
    D = int(choice(rng, [1, 1, 2, 3, 6, 9, N, 24, 48]))
    if N * D > 500:
        N = max(2, 500 // D)
    nu = gen.freqs(rng, N, D)
    cs = [('Q', [nu])]
    k = s.pf('Q', gen.disguise(rng, nu))
    s.system('a', [k], choice(rng, ['one', 'list']))
    xm = float(gen.zpe(cs).max()) / gen.KB         # sum x = xm / T
    T = np.append(gen.temps(rng, cs, M=choice(rng, [1, 2, N, 3]), zero=None),
                  xm / np.exp(rng.uniform(math.log(1e-6), math.log(10500), 3)))
    T = T.astype(choice(rng, [float, float, np.longdouble]))
    cols = gen.pick_cols(rng, T, 4)
    s.q('a', 'P', T, cols, chk=['dist', 'weights'])
    s.pfq(k, 'Z', T, cols, chk=['weights'])
    s.pfq(k, 'W', T, cols, chk=['deriv'])
    s.pfq(k, 'V', T, cols, chk=['vibv'])
    s.pfq(k, 'Z', T, cols, chk=['ownz'])
    # derivatives stay finite below the range where the product itself can be represented
    T2 = np.array([xm / 11000 / f for f in (1.0, 3.0)])
    T2 = T2[T2 > 1e-3 + xm / D / 11000]
    if len(T2):
        s.pfq(k, 'W', T2, chk=['deriv'])
    return s


def c14(rng, i):
    s = Session('C14 #%d' % i)
    N = gen.size(rng)
    sym, mom = gen.rot(rng, N)
    k = s.pf('R', gen.disguise(rng, sym), gen.disguise(rng, mom))
    s.system('a', [k], choice(rng, ['one', 'list']))
    T = gen.temps(rng, [('R', [sym, mom])], M=choice(rng, [1, 2, 3, N, 10]))
    cols = gen.pick_cols(rng, T, 2)
    s.q('a', 'P', T, cols, chk=['dist', 'weights'])
    z = s.pfq(k, 'Z', T, cols, chk=['weights'])
    s.pfq(k, 'W', T, cols, chk=['deriv'])
    s.pfq(k, 'V', T, cols, chk=['deriv'])
    s.q('a', 'C', T, cols, chk=['heat'])
    k2 = s.pf('R', sym, gen.disguise(rng, mom[:, rng.permutation(3)]))
    s.pfq(k2, 'Z', T, cols, rel=[_unit_rel(z, N, len(cols))])
    # noise on a vanishing moment is irrelevant
    if mom.dtype.kind == 'f':
        lin = mom.min(axis=1) < 1e-6 * mom.max(axis=1)
        if np.any(lin):
            m3 = mom.copy()
            for a in np.flatnonzero(lin):
                m3[a, int(np.argmin(mom[a]))] = choice(rng, [0.0, 1e-14, -1e-14, 3e-11, -3e-11]) * mom[a].max()
            k3 = s.pf('R', sym, m3)
            s.pfq(k3, 'Z', T, cols, rel=[_unit_rel(z, N, len(cols))])
        else:
            k3 = s.pf('R', sym, mom * choice(rng, [2.0, 0.25, 1024.0, 2.0 ** -12]))
            s.pfq(k3, 'Z', T, cols, rel=[_unit_rel(z, N, len(cols))])
    return s


def c15(rng, i):
    s = Session('C15 #%d' % i)
    mix = choice(rng, gen.MIXES)
    cs, ks = setup(rng, s, mix=mix)
    N = gen.nmin(cs)
    T = gen.temps(rng, cs, M=choice(rng, [1, 2, 4, N, 25]))
    if int(rng.integers(3)):
        # around the temperature where the populations change
        e = gen.rel_energy(cs) + gen.zpe(cs) - (gen.zpe(cs).min() if N else 0)
        sp = float(np.abs(e).max()) or 0.01
        t = np.maximum(sp / gen.KB / np.exp(rng.uniform(-1, 4, 4)), gen.t_floor(cs))
        T = np.append(np.asarray(T, dtype=float)[:4], t)
        T = np.array([x if gen.usable(cs, float(x)) else gen.t_floor(cs) for x in T])
    cols = gen.pick_cols(rng, T, 5)
    s.q('a', 'C', T, cols, chk=['finite', 'heat', 'heatpos'])
    return s


def c16(rng, i):
    s = Session('C16 #%d' % i)
    kind = choice(rng, 'EECQQQR')
    N = gen.size(rng, False)
    D = int(choice(rng, [1, 2, 3, 9, N, 20]))
    c = gen.contrib(rng, kind, N, D)
    k = s.pf(c[0], *c[1])
    cs = [c]
    T = np.asarray(gen.temps(rng, cs, M=choice(rng, [1, 2, N, D, 4]), zero=None, hot=None))
    if kind == 'E':
        # stay where exp() does not underflow for the consistency with Z
        t0 = max(gen.rel_energy(cs).max() / gen.KB / 600, 1e-3)
        Tz = t0 * np.array([1.0, 1.01, 3.0, 40.0])
    else:
        t0 = max(gen.t_floor(cs), 1.0)
        Tz = t0 * np.array([1.0, 1.01, 2.5, 60.0])
    cols = gen.pick_cols(rng, T, 4)
    s.pfq(k, 'W', T, cols, chk=['deriv'])
    s.pfq(k, 'V', T, cols, chk=['vibv' if kind == 'Q' else 'deriv'])
    s.pfq(k, 'W', Tz, chk=['deriv'])
    s.pfq(k, 'V', Tz, chk=['vibv' if kind == 'Q' else 'deriv'])
    s.pfq(k, 'Z', Tz, chk=['ownz'])
    return s


def c23(rng, i):
    s = Session('C23 #%d' % i)
    cs = gen.landscape(rng, N=gen.size(rng) + 1)
    N = gen.nmin(cs)
    reg(s, 'a', cs, choice(rng, HOWS))
    T = gen.temps(rng, cs, M=choice(rng, [1, 3, N, 8]), zero=None)
    cols = gen.pick_cols(rng, T, 4)
    base = s.q('a', 'P', T, cols)
    for j in range(2):
        if int(rng.integers(2)):                      # remove minima (never leaving none)
            keep = np.sort(rng.permutation(N)[:int(rng.integers(1, N))])
        else:                                         # list some minima several times
            keep = np.sort(np.concatenate([np.arange(N), rng.integers(0, N, int(rng.integers(1, 4)))]))
        sub = [(k, [gen.disguise(rng, np.asarray(x)[keep]) for x in a]) for k, a in cs]
        # where the remaining minima are still representable
        ok = [j2 for j2, c in enumerate(cols) if gen.usable(sub, float(T[c]))]
        # occupations of the kept minima have to be inside the floating-point range in the larger landscape
        e = gen.rel_energy(cs)
        z = gen.zpe(cs)
        ok = [j2 for j2 in ok if np.isinf(T[cols[j2]]) or
              np.all((e[keep] / gen.KB / float(T[cols[j2]]) < 640) | (e[keep] - e[keep].min() == 0) & (e[keep] == 0))]
        if not ok:
            continue
        o = 's%d' % j
        reg(s, o, sub, choice(rng, HOWS))
        T2 = np.asarray(T)[[cols[j2] for j2 in ok]].copy()
        s.q(o, 'P', T2, chk=['dist'], rel=[rel_value(base, len(keep), len(ok), rows=keep, cols=ok, kind='ratio')])
    return s


def c24(rng, i):
    s = Session('C24 #%d' % i)
    N = gen.size(rng)
    M = choice(rng, [1, 2, 5, N, 12])
    T = np.exp(rng.uniform(math.log(1e-3), math.log(1e6), M))
    st = int(rng.integers(4))
    if st == 0:
        T = rng.integers(0, 2000, M)
    elif st == 1:
        T = np.array([choice(rng, [0.0, np.inf, 1e-300, 1e-200, 1.0, 300.0, 1e30]) for _ in range(M)])
    if T.dtype.kind == 'f' and int(rng.integers(2)):
        T[int(rng.integers(M))] = 0
    T = gen.disguise(rng, T)
    s.util('beta', None, T)
    E = gen.energies(rng, N)
    if int(rng.integers(2)):
        E = E - choice(rng, [E.min(), E.max(), 0])
    if int(rng.integers(2)):
        E = E.copy()
        E[int(rng.integers(N))] = 0
    if E.dtype.kind == 'f' and int(rng.integers(4)) == 0:
        E = E.astype(np.longdouble)
    # products must stay inside double precision
    T3 = np.array([t if t == 0 or t > 1e-100 else 1e-3 for t in np.asarray(T)], dtype=T.dtype)
    if int(rng.integers(4)) == 0:
        E = E[:, None]
    s.util('exponent', gen.disguise(rng, E), T3)
    D = int(choice(rng, [1, 2, 3, 9, N, 30, 200]))
    if N * D > 2000:
        N = max(1, 2000 // D)
    A = gen.freqs(rng, N, D)
    if int(rng.integers(5)) == 0:
        A = 10.0 ** rng.uniform(-305, 305, (N, D))
    if int(rng.integers(2)):
        A = A.copy()
        for _ in range(int(rng.integers(1, 4))):
            A[int(rng.integers(N)), int(rng.integers(D))] = 0
    s.util('gmean', gen.disguise(rng, A))
    return s


def c26(rng, i):
    """two independent systems and the system they make together"""
    s = Session('C26 #%d' % i)
    mix = choice(rng, ['E', 'EC', 'EQ', 'ECR', 'EQR', 'C', 'Q', 'EU', 'EX', 'CR', 'EQU', 'QX', 'ECX'])
    part = [k for k in mix if k not in 'RX']
    na, nb = int(choice(rng, [1, 2, 3, 4, 6, 9])), int(choice(rng, [1, 2, 2, 3, 5]))
    es = choice(rng, ['small', 'near', 'levels', 'int', 'equal', 'dft'])
    fs = choice(rng, ['typ', 'int', 'log', 'soft', 'rows'])
    a = gen.landscape(rng, mix, N=na, D=int(choice(rng, [1, 2, 3, 9, 12] + ([60, 101, 130] if 'Q' not in mix and na * nb < 13 else []))), estyle=es, fstyle=fs)
    b = gen.landscape(rng, ''.join(part), N=nb, D=int(choice(rng, [1, 2, 3, 9])), estyle=es, fstyle=fs)
    major = int(rng.integers(2))
    rows = [(x, y) for x in range(na) for y in range(nb)] if major else [(x, y) for y in range(nb) for x in range(na)]
    rows = [rows[int(k)] for k in rng.permutation(len(rows))] if int(rng.integers(2)) else rows
    ra, rb = [x for x, _ in rows], [y for _, y in rows]
    other = {k: v for k, v in b}
    both = []
    for k, v in a:
        u = [np.asarray(x)[ra] for x in v]
        if k in other:
            w = [np.asarray(x)[rb] for x in other[k]]
            if k == 'E':
                u = [u[0] + w[0], u[1] * w[1]]
            elif k in 'CQ':
                m = np.concatenate([u[0], w[0]], axis=1)
                u = [m[:, rng.permutation(m.shape[1])] if int(rng.integers(2)) else m]
            else:
                u = [u[0] * w[0], u[1] + w[1], u[2] + w[2]]
        both.append((k, [gen.disguise(rng, x) for x in u]))
    reg(s, 'a', a, choice(rng, HOWS))
    reg(s, 'b', b, choice(rng, HOWS))
    reg(s, 'ab', both, choice(rng, HOWS))
    T = gen.temps(rng, both, M=choice(rng, [1, 2, na, nb, na * nb, 6]), zero='maybe' if 'Q' not in mix else None)
    cols = gen.pick_cols(rng, T, 4)
    M = len(T)
    oa = gen.observable(rng, na, M).astype(float) * np.ones((1, M))
    ob = gen.observable(rng, nb, M).astype(float) * np.ones((1, M))
    for w in choice(rng, ['PC', 'CP', 'PCA', 'APC']):
        ka = s.q('a', w, T, cols, obs=oa if w == 'A' else None)
        kb = s.q('b', w, T, cols, obs=ob if w == 'A' else None)
        s.q('ab', w, T, cols, obs=oa[ra] + ob[rb] if w == 'A' else None,
            rel=[{'kind': 'outer', 'k': ka, 'k2': kb, 'ra': [x + 1 for x in ra], 'rb': [y + 1 for y in rb]}
                 if w == 'P' else {'kind': 'total', 'k': ka, 'k2': kb}])
    return s


def c27(rng, i):
    """energies, quanta and temperatures in another unit"""
    s = Session('C27 #%d' % i)
    cs = gen.landscape(rng, choice(rng, ['E', 'Q', 'C', 'EC', 'EQ', 'ECR', 'EQR', 'EX', 'EQU', 'QX', 'ECQRU']),
                       estyle=choice(rng, ['small', 'dft', 'near', 'wide', 'int', 'levels', 'equal', 'near2']))
    N = gen.nmin(cs)
    reg(s, 'a', cs, choice(rng, HOWS))
    T = gen.temps(rng, cs, M=choice(rng, [1, 2, N, 5, 12]))
    cols = gen.pick_cols(rng, T, 4)
    obs = gen.observable(rng, N, len(T))
    base = {w: s.q('a', w, T, cols, obs=obs if w == 'A' else None) for w in 'PCA'}
    for j, lam in enumerate([choice(rng, [2.0, 4.0, 0.5, 0.25, 64.0]), choice(rng, [3.0, 10.0, 7.0, 1000.0])]):
        o = 'b%d' % j
        cs2 = []
        for k, v in cs:
            v = [np.array(x) for x in v]
            if k in 'ECQX':
                v[0] = v[0] * (int(lam) if v[0].dtype.kind in 'iu' and lam == int(lam) else lam)
            cs2.append((k, [gen.disguise(rng, x) for x in v]))
        reg(s, o, cs2, choice(rng, HOWS))
        T2 = np.asarray(T) * lam
        for w in 'PCA':
            s.q(o, w, T2, cols, obs=obs if w == 'A' else None, rel=[rel_value(base[w], N if w == 'P' else 1, len(cols))])
    return s


def c28(rng, i):
    s = Session('C28 #%d' % i)
    if i % 3:
        kw = {'estyle': 'huge'} if i % 5 == 0 else {}
        cs = gen.landscape(rng, choice(rng, ['E', 'EC', 'ER', 'ECR', 'EU', 'ECRU', 'EUU']), N=gen.size(rng, False), **kw)
        N = gen.nmin(cs)
        reg(s, 'a', cs, choice(rng, HOWS))
        sp = max(gen.rel_energy(cs).max(), 1e-9) / gen.KB
        T = np.asarray(gen.temps(rng, cs, M=choice(rng, [3, 6, N + 1])), dtype=float)
        n = int(choice(rng, [4, 6, 8]))
        T = np.append(T[:3], sp / np.exp(rng.uniform(-3, 6.4, n)))
        T = gen.disguise(rng, T[rng.permutation(len(T))])
        s.q('a', 'P', T, chk=['heating'])
        E = np.asarray(cs[0][1][0], dtype=float)
        s.q('a', 'A', T, obs=gen.disguise(rng, (E - E.min())[:, None]), chk=['rising'])
        return s
    # with vibrations and everything else: the mean energy - kB T < beta W >
    cs = gen.landscape(rng, choice(rng, ['EQ', 'Q', 'EQR', 'EC', 'EX', 'QX', 'ECR']), N=gen.size(rng, False))
    N = gen.nmin(cs)
    ks = reg(s, 'a', cs, choice(rng, HOWS))
    lo = gen.t_floor(cs)
    sp = (gen.rel_energy(cs).max() + gen.zpe(cs).max() + 1e-6) / gen.KB
    T = np.maximum(lo, sp / np.exp(rng.uniform(-3, 5, 7)))
    W = np.zeros((N, len(T)))
    for k in ks:
        w, exc = s.call(s.pfs[k].calc_part_func_w, T)
        if exc or not isinstance(w, np.ndarray) or w.shape != W.shape:
            s.ev.append({'op': 'driver', 'exc': exc or 'no W'})
            return s
        W = W + np.asarray(w, dtype=float)
    s.q('a', 'A', T, obs=-gen.KB * T * W, chk=['rising'])
    return s


DRIVERS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08,
           'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16,
           'C23': c23, 'C24': c24, 'C26': c26, 'C27': c27, 'C28': c28}
