"""Recorder: runs the real library and writes what it did as a session of spec/ApiTrace.tla."""
import os
import signal
import sys
import warnings

REPO = os.environ.get('OCCUPROB_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.filterwarnings('ignore')

import numpy as np                                                   # noqa: E402

from bf import bf, bfs                                               # noqa: E402

import occuprob                                                      # noqa: E402
assert os.path.dirname(os.path.abspath(occuprob.__file__)) == os.path.join(REPO, 'occuprob'), occuprob.__file__
from occuprob.superpositions import SuperpositionApproximation       # noqa: E402
from occuprob import partitionfunctions as _pf                       # noqa: E402
from occuprob import utils as _ut                                    # noqa: E402

np.seterr(all='ignore')

CALL_LIMIT_S = 60


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout('call did not return')


signal.signal(signal.SIGALRM, _alarm)


class UserPF(_pf.PartitionFunction):
    """A user-defined contribution with temperature-independent values."""

    def __init__(self, z, w, v):
        self.z, self.w, self.v = z, w, v

    def _grid(self, a, temperature):
        return np.outer(a, np.ones(len(temperature)))

    def calc_part_func(self, temperature):
        return self._grid(self.z, temperature)

    def calc_part_func_w(self, temperature):
        return self._grid(self.w, temperature)

    def calc_part_func_v(self, temperature):
        return self._grid(self.v, temperature)


class LevelPF(_pf.PartitionFunction):
    """A user-defined contribution that depends on temperature: one more level, `gap` above the lowest one and
    `ratio` times as degenerate."""

    def __init__(self, gap, ratio):
        self.gap, self.ratio = gap, ratio

    def _x(self, temperature):
        t = np.asarray(temperature, dtype=np.longdouble)
        kt = np.longdouble(8617333262145) / np.longdouble(10) ** 17 * t
        return np.asarray(self.gap, dtype=np.longdouble)[:, None] / kt[None, :]

    def _share(self, temperature):
        q = np.asarray(self.ratio, dtype=np.longdouble)[:, None] * np.exp(-self._x(temperature))
        return q / (1 + q)

    def calc_part_func(self, temperature):
        return np.asarray(1 + np.asarray(self.ratio)[:, None] * np.exp(-self._x(temperature)), dtype=float)

    def calc_part_func_w(self, temperature):
        share = self._share(temperature)
        return np.asarray(-np.where(share > 0, self._x(temperature), 0) * share, dtype=float)

    def calc_part_func_v(self, temperature):
        share = self._share(temperature)
        x = np.where(share > 0, self._x(temperature), 0)
        return np.asarray(x ** 2 * share * (1 - share), dtype=float)


METHOD = {'Z': 'calc_partition_functions', 'P': 'calc_probability', 'C': 'calc_heat_capacity',
          'A': 'calc_ensemble_average'}
PFMETHOD = {'Z': 'calc_part_func', 'W': 'calc_part_func_w', 'V': 'calc_part_func_v'}


class Session:
    def __init__(self, note=''):
        self.note = note
        self.ev = []
        self.objs = {}
        self.pfs = {}
        self.defs = {}
        self.watch = []          # (array or list, snapshot)

    # -- observation of caller-owned data ---------------------------------------------------
    def _snap(self, a):
        if isinstance(a, np.ndarray):
            return (a.shape, a.dtype.str, a.tobytes())
        return (len(a), [id(x) for x in a])

    def guard(self, a):
        self.watch.append((a, self._snap(a)))

    def unguard(self, a):
        self.watch = [(b, s) for b, s in self.watch if b is not a]

    def intact(self):
        ok = all(self._snap(a) == s for a, s in self.watch)
        return ok

    def call(self, fn, *args, **kw):
        signal.alarm(CALL_LIMIT_S)
        try:
            return fn(*args, **kw), ''
        except Timeout as err:
            return None, 'Timeout: %s' % err
        except Exception as err:                       # the reply of the library is an exception
            return None, '%s: %s' % (type(err).__name__, str(err)[:200])
        finally:
            signal.alarm(0)

    # -- events -------------------------------------------------------------------------------
    def new(self, o):
        obj, exc = self.call(SuperpositionApproximation)
        self.objs[o] = obj
        self.ev.append({'op': 'new', 'o': o, 'exc': exc})
        return len(self.ev)

    def pf(self, kind, *arrays, guard=True):
        cls = {'E': _pf.ElectronicPF, 'C': _pf.ClassicalHarmonicPF, 'Q': _pf.QuantumHarmonicPF,
               'R': _pf.RotationalPF, 'U': UserPF, 'X': LevelPF}[kind]
        names = {'E': ('E', 'g'), 'C': ('nu',), 'Q': ('nu',), 'R': ('sym', 'mom'), 'U': ('z', 'w', 'v'),
                 'X': ('d', 'r')}[kind]
        d = {'kind': kind}
        for n, a in zip(names, arrays):
            d[n] = bfs(a)
        if guard:
            for a in arrays:
                self.guard(a)
        obj, exc = self.call(cls, *arrays)
        self.ev.append({'op': 'pf', 'def': d, 'exc': exc, 'intact': self.intact()})
        k = len(self.ev)
        self.pfs[k] = obj
        self.defs[k] = (kind, arrays)
        return k

    def add(self, o, ks, how='list'):
        pfs = [self.pfs[k] for k in ks]
        if how == 'one':
            arg = pfs[0]
        elif how == 'tuple':
            arg = tuple(pfs)
        elif how == 'gen':
            arg = (p for p in pfs)
        else:
            arg = list(pfs)
        if how == 'list':
            self.guard(arg)
        _, exc = self.call(self.objs[o].add_partition_functions, arg)
        self.ev.append({'op': 'add', 'o': o, 'ps': list(ks), 'exc': exc, 'intact': self.intact()})
        if how == 'listmut':                 # the caller goes on using its own list
            arg.clear()
        return len(self.ev)

    def system(self, o, ks, how='list'):
        self.new(o)
        if ks:
            self.add(o, ks, how)
        return o

    def _reply(self, e, res, exc, T, cols, obs=None, keep=True):
        M = int(np.size(T))
        e['M'] = M
        e['exc'] = exc
        out, shape, rec = 'num', [], []
        if exc:
            out = 'raise'
        elif res is None:
            out = 'none'
        elif not isinstance(res, np.ndarray) or res.dtype.kind not in 'fiu' or res.ndim != 2:
            out = 'odd'
        else:
            shape = [int(x) for x in res.shape]
            if shape[1] == M:
                for j in cols:
                    c = {'T': bf(T[j]), 'v': [bf(x) for x in res[:, j]]}
                    if obs is not None:
                        c['b'] = [bf(x) for x in (obs[:, j] if obs.shape[1] > 1 else obs[:, 0])]
                    rec.append(c)
            if keep:
                self.guard(res)
        e.update(out=out, shape=shape, cols=rec, intact=self.intact())
        self.ev.append(e)
        return len(self.ev)

    def q(self, o, what, T, cols=None, obs=None, chk=(), rel=(), keep=True):
        T_ = T
        if cols is None:
            cols = range(len(T))
        self.guard(T_)
        args = (T_,) if what != 'A' else (T_, obs)
        if what == 'A':
            self.guard(obs)
        obj = self.objs[o]
        res, exc = self.call(lambda: getattr(obj, METHOD[what])(*args))
        self.last = res
        k = self._reply({'op': 'q', 'o': o, 'what': what, 'chk': list(chk), 'rel': list(rel)},
                        res, exc, T_, list(cols), obs, keep)
        self.unguard(T_)
        return k

    def pfq(self, p, what, T, cols=None, chk=(), rel=(), keep=True):
        if cols is None:
            cols = range(len(T))
        self.guard(T)
        obj = self.pfs[p]
        res, exc = self.call(lambda: getattr(obj, PFMETHOD[what])(T))
        k = self._reply({'op': 'pfq', 'p': p, 'what': what, 'chk': list(chk), 'rel': list(rel)},
                        res, exc, T, list(cols), None, keep)
        self.last = res
        self.unguard(T)
        return k

    def util(self, what, arr, T=None):
        """calc_beta(T), calc_exponent(arr, T), calc_geometric_mean(arr)"""
        for a in (arr, T):
            if a is not None:
                self.guard(a)
        fn = {'beta': lambda: _ut.calc_beta(T), 'exponent': lambda: _ut.calc_exponent(arr, T),
              'gmean': lambda: _ut.calc_geometric_mean(arr)}[what]
        res, exc = self.call(fn)
        e = {'op': 'util', 'what': what, 'chk': ['util'], 'rel': []}
        if isinstance(res, np.ndarray):
            if what == 'beta' and res.ndim == 1:
                res = res[None, :]
            if what == 'gmean' and res.ndim == 1:
                res = res[:, None]
        if what == 'beta':
            e['rows'] = 1
        else:
            e['rows'] = int(arr.shape[0])
            e['arg'] = bfs(arr if what == 'gmean' else arr.reshape(-1))
        if what == 'gmean':
            T = np.array([0.])
        return self._reply(e, res, exc, T, range(len(T)))

    def dump(self):
        return {'note': self.note, 'ev': self.ev}


def rel_value(k, n, m, rows=None, cols=None, kind='value', tol=None):
    r = {'k': k, 'kind': kind, 'rows': [int(x) + 1 for x in (rows if rows is not None else range(n))],
         'cols': [int(x) + 1 for x in (cols if cols is not None else range(m))]}
    if tol is not None:
        r['tol'] = bf(float(tol))
    return r
