"""Stages of every property: which recordings are made and which trace specification judges them."""
import json
import os

import numpy as np

import checkout
import command
import compare
import files
import gen
import procs
import props
import together
import views
from rec import Session, rel_value

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Stage:
    def __init__(self, spec, fn, quick=0, thorough=0, histories=None, limit=None, only=None):
        self.only = only
        self.spec, self.fn, self.quick, self.thorough = spec, fn, quick, thorough
        self.histories, self.limit = histories, limit

    def run(self, rng, i, extra):
        return self.fn(rng, i) if extra is None else self.fn(rng, i, extra)

    def select(self, hs, thorough, seed):
        """histories to replay: all of them up to renaming of the objects, or a seeded sample beyond `limit`"""
        hs = [h for h in hs if (self.only is None or self.only(h))]
        lim = self.limit[1 if thorough else 0]
        if len(hs) > lim:
            rng = np.random.default_rng([seed, 99])
            hs = [hs[int(k)] for k in np.sort(rng.permutation(len(hs))[:lim])]
        return hs


# -- replay of TLC histories (spec/Histories.tla) ---------------------------------------------------

POOL_N = 2


def _pool(rng, s, used):
    """contributions 1 = E, 2 = C, 3 = Q, 4 = X (user-defined) over two minima, 5 over three, 6 over one"""
    ks, fresh = {}, {}
    kind = {1: 'E', 2: 'C', 3: 'Q', 4: 'X', 5: 'C', 6: 'E'}
    for c in sorted(used):
        n = {5: 3, 6: 1}.get(c, POOL_N)
        k, a = gen.contrib(rng, kind[c], n, 3, estyle='small', fstyle='typ')
        ks[c] = s.pf(k, *a)
        fresh[c] = (k, [np.array(x) for x in a])
    return ks, fresh


def replay(rng, i, h, check):
    """check: 'same' (twin objects), 'compose' (products and sums) or 'kind' (presence of numbers only)"""
    s = Session('history %s' % json.dumps(h))
    used = sorted({c for x in h if x['op'] == 'add' for c in x['b']})
    ks, fresh = _pool(rng, s, used)
    T = np.array([150.0, 400.0, 900.0]) * float(rng.uniform(1, 2))
    if int(rng.integers(3)) == 0:
        T = T[:2].copy()
    have = {'a': [], 'b': []}
    for o in have:
        s.new(o)
    mine = []                     # the caller's list
    asked = []
    own = {}

    def ask(o, w):
        seq = list(have[o])
        n = {5: 3, 6: 1}.get(seq[0], POOL_N) if seq else POOL_N
        ok = bool(seq) and len({{5: 3, 6: 1}.get(c, POOL_N) for c in seq}) == 1
        ops = [w] if w != 'P' else [props.choice(rng, ['P', 'Z', 'A', 'P'])]
        for ww in ops:
            obs = np.linspace(-1, 3, n)[:, None] if ww == 'A' else None
            rel = []
            if check == 'compose' and ok:
                key = tuple(T)
                for c in set(seq):
                    if (c, key) not in own:
                        own[c, key] = {x: s.pfq(ks[c], x, T) for x in 'ZWV'}
                z = s.q(o, 'Z', T, rel=[{'kind': 'product', 'ks': [own[c, key]['Z'] for c in seq]}])
                p = s.q(o, 'P', T, rel=[{'kind': 'normal', 'k': z}])
                if ww == 'C':
                    rel = [{'kind': 'fluct', 'k': p, 'ws': [own[c, key]['W'] for c in seq],
                            'vs': [own[c, key]['V'] for c in seq]}]
                elif ww == 'Z':
                    rel = [rel_value(z, n, len(T))]
                elif ww == 'P':
                    rel = [rel_value(p, n, len(T))]
                else:
                    rel = [{'kind': 'mean', 'k': p}]
            k = s.q(o, ww, T, obs=obs, rel=rel, keep=False)
            if ok:
                asked.append((seq, ww, T.copy(), k, n))

    hostile = any(x['op'] == 'scribble' for x in h)
    for x in h:
        if x['op'] == 'add':
            if len(x['b']) == 1 and int(rng.integers(2)):
                s.add(x['o'], [ks[c] for c in x['b']], 'one')
            else:
                mine[:] = [s.pfs[ks[c]] for c in x['b']]
                s.guard(mine)
                _, exc = s.call(s.objs[x['o']].add_partition_functions, mine)
                s.ev.append({'op': 'add', 'o': x['o'], 'ps': [ks[c] for c in x['b']], 'exc': exc, 'intact': s.intact()})
                s.unguard(mine)
            have[x['o']] += x['b']
        elif x['op'] == 'q':
            ask(x['o'], x['w'])
        elif x['op'] == 'edit':
            k = int(rng.integers(4))
            if k == 0 and len(T) == 3:
                T[1] *= 1.25                     # both ends stay
            elif k == 1:
                T[:] = T[::-1].copy()
                T[0] += 1
            else:
                T *= 1.5
        elif x['op'] == 'clear':
            mine.clear()
        elif x['op'] == 'scribble':
            if isinstance(s.last, np.ndarray) and s.last.flags.writeable:
                s.last[...] = 7
    if check == 'same':
        # every answer was that of a new object with the same contributions, made from copies of the data
        for j, (seq, w, t, k, n) in enumerate(asked):
            o = 't%d' % j
            tw = {c: s.pf(fresh[c][0], *[x.copy() for x in fresh[c][1]], guard=False) for c in set(seq)}
            s.system(o, [tw[c] for c in seq], 'each' if False else 'list')
            s.q(o, w, t, obs=np.linspace(-1, 3, n)[:, None] if w == 'A' else None,
                rel=[rel_value(k, n if w in 'PZ' else 1, len(t))])
    elif check == 'kind':
        for o in 'ab':
            for w in 'PZCA':
                n = {5: 3, 6: 1}.get(have[o][0], POOL_N) if have[o] else POOL_N
                s.q(o, w, T, obs=np.ones((n, 1)) if w == 'A' else None, keep=False)
    return s


def h08(rng, i, h):
    return replay(rng, i, h, 'compose')


def h09(rng, i, h):
    return replay(rng, i, h, 'same')


def h10(rng, i, h):
    return replay(rng, i, h, 'kind')


def first_a(h):
    return next((x['o'] for x in h if 'o' in x), 'a') == 'a'


def runs(h):
    f = set(h['flags'])
    return bool(f) and not ({'e', 's'} <= f or {'c', 'q'} <= f)


def drawn(h):
    return runs(h) and h['plot']


def meets_fault(h):
    bad = set()
    for x in h:
        if x['op'] == 'break':
            bad.add(x['i'])
        elif x['op'] in ('repair', 'put'):
            bad.discard(x['i'])
        elif x['op'] == 'run' and x['i'] in bad:
            return True
    return False


def twice(h):
    return sum(x['op'] == 'run' for x in h) > 1


def at_once(h):
    live, filled = set(), []
    for x in h:
        if x['op'] == 'start' and live:
            return True
        live.add(x['p'])
        if x['op'] == 'fill':
            filled.append(x['p'])
            if filled.count(x['p']) == 2:
                live.discard(x['p'])
    return False


def uncut(h):
    return not any(x['op'] in ('kill', 'full', 'wall') for x in h)


def is_cut(h):
    return not uncut(h)


def api(p, q, t):
    return Stage('ApiTrace', props.DRIVERS[p], q, t)


STAGES = {
    'C01': [api('C01', 1500, 20000)],
    'C02': [api('C02', 1500, 20000)],
    'C03': [api('C03', 800, 10000)],
    'C04': [api('C04', 1500, 20000)],
    'C05': [api('C05', 800, 10000)],
    'C06': [api('C06', 700, 8000)],
    'C07': [api('C07', 700, 6000)],
    'C08': [api('C08', 600, 6000), Stage('ApiTrace', h08, histories='C08', limit=(1500, 15000), only=first_a)],
    'C09': [api('C09', 800, 10000), Stage('ApiTrace', h09, histories='C09', limit=(3000, 30000), only=first_a)],
    'C10': [api('C10', 700, 8000), Stage('ApiTrace', h10, histories='C10', limit=(2500, 25000), only=first_a)],
    'C11': [api('C11', 1000, 12000)],
    'C12': [api('C12', 600, 6000)],
    'C13': [api('C13', 700, 6000)],
    'C14': [api('C14', 1500, 15000)],
    'C15': [api('C15', 1200, 12000)],
    'C16': [api('C16', 1200, 12000)],
    'C17': [Stage('LoadTrace', files.c17, 500, 6000)],
    'C18': [Stage('LoadTrace', files.c18, 900, 10000)],
    'C19': [Stage('CliTrace', command.h19, histories='Cli', limit=(500, 1536))],
    'C20': [Stage('CliTrace', command.h20, histories='Cli', limit=(300, 816), only=runs)],
    'C21': [Stage('CliTrace', command.h21, histories='Cli', limit=(150, 408), only=drawn),
            Stage('CliTrace', command.s21, 80, 1000)],
    'C22': [Stage('VersionTrace', checkout.h22, histories='Checkouts', limit=(480, 8000))],
    'C23': [api('C23', 900, 10000)],
    'C24': [api('C24', 1200, 12000)],
    'C26': [api('C26', 700, 8000)],
    'C27': [api('C27', 800, 8000)],
    'C28': [api('C28', 900, 10000)],
    'C29': [Stage('ApiTrace', together.h29, histories='Schedules', limit=(1200, 12000)),
            Stage('ApiTrace', together.h29, histories='Three', limit=(300, 3000))],
    'C30': [Stage('ApiTrace', views.h30, histories='Views', limit=(900, 7168))],
    'C31': [Stage('CliTrace', command.h31, histories='Workspace', limit=(320, 4000), only=meets_fault)],
    'C32': [Stage('CliTrace', command.h32, histories='Workspace', limit=(200, 3000), only=twice)],
    'C33': [Stage('CliTrace', procs.h33, histories='Together', limit=(400, 5000), only=lambda h: uncut(h) and at_once(h))],
    'C34': [Stage('CliTrace', procs.h34, histories='Cut', limit=(240, 3500), only=is_cut),
            Stage('CliTrace', procs.h34, histories='Sequel', limit=(200, 3000), only=is_cut)],
    'C25': [Stage('CompareTrace', compare.c25, 3000, 30000),
            Stage('CompareTrace', compare.h25, histories='Compare', limit=(6000, 60000))],
}


def known_sessions(prop):
    """sessions of the listed findings of this property: [(trace spec, session)]"""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    import contextlib
    import io
    import known
    out = []
    with open(path) as f:
        for e in json.load(f)['known']:
            if e['property'] == prop:
                with contextlib.redirect_stdout(io.StringIO()):
                    spec, s = known.FINDINGS[e['id']]()
                s = s if isinstance(s, dict) else s.dump()
                s.update(finding=e['id'], expect=e['fails'], what=e['what'], note='known finding ' + e['id'])
                out.append((spec, s))
    return out
