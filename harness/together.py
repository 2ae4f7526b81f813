"""Callers at the same time (C29): replays the schedules of spec/Schedules.tla, line by line of the library's source."""
import os
import sys
import threading

import numpy as np

import gen
import rec
from gen import choice
from rec import Session, SuperpositionApproximation, rel_value
from occuprob.partitionfunctions import PartitionFunction

SRC = os.path.join(rec.REPO, 'occuprob') + os.sep
LIMIT_S = 120
WAIT_S = 2.
REPEATS = 8     # line stops drawn for every schedule


class Composite(PartitionFunction):
    """a contribution that stands for another superposition with one contribution per minimum and factor"""

    def __init__(self, inner):
        self.inner = inner

    def calc_part_func(self, temperature):
        return self.inner.calc_partition_functions(temperature)

    def calc_part_func_w(self, temperature):
        return self.inner.combine_contributions(temperature, np.sum, 'calc_part_func_w')

    def calc_part_func_v(self, temperature):
        return self.inner.combine_contributions(temperature, np.sum, 'calc_part_func_v')


class Turns:
    """one caller runs at a time, for as many lines as its turn has"""
    blocked = 0

    def __init__(self, jobs, fine):
        """fine: stop between instructions of the interpreter, not only between lines"""
        self.n = len(jobs)
        self.event = 'opcode' if fine else 'line'
        self.go = [threading.Semaphore(0) for _ in jobs]
        self.back = threading.Semaphore(0)
        self.left = [0] * self.n
        self.lines = [0] * self.n
        self.over = [False] * self.n
        self.hung = self.free = False
        self.jobs = jobs
        self.threads = [threading.Thread(target=self._run, args=(c,), daemon=True) for c in range(self.n)]
        for t in self.threads:
            t.start()

    def _run(self, c):
        self.go[c].acquire()

        def local(frame, event, arg):
            if event == self.event:
                self.lines[c] += 1
                self.left[c] -= 1
                if self.left[c] < 0 and not self.free:
                    self.back.release()
                    self.go[c].acquire()
            return local

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(SRC):
                return None
            frame.f_trace_opcodes = self.event == 'opcode'
            return local
        sys.settrace(trace)
        try:
            self.jobs[c]()
        finally:
            sys.settrace(None)
            self.over[c] = True
            self.back.release()

    def turn(self, c, lines):
        if self.over[c] or self.hung:
            return
        self.left[c] = lines
        self.go[c].release()
        if not self.back.acquire(timeout=WAIT_S if Turns.blocked < 10 else WAIT_S / 20):
            # it waits for a caller that is stopped (a lock): nobody is stopped from here on
            Turns.blocked += 1
            self.hung = self.free = True
            for d in range(self.n):
                self.go[d].release()

    def finish(self):
        for c in range(self.n):
            self.turn(c, 1 << 60)
        for t in self.threads:
            t.join(LIMIT_S)


def _try(fn, *args):
    try:
        return fn(*args), ''
    except Exception as err:
        return None, '%s: %s' % (type(err).__name__, str(err)[:200])


KIND = {1: 'E', 2: 'C', 3: 'Q', 4: 'X'}
SHARED, INNER, COMPOSITE = [1, 3], [2, 4], 9


class World:
    """one copy of the contributions, the shared object and the callers' own"""

    def __init__(self, s, data, tag, callers, progs, Ts):
        self.s, self.tag, self.progs, self.Ts = s, tag, progs, Ts
        self.ks = {c: s.pf(KIND[c], *[np.array(x) for x in data[c]]) for c in sorted(data)}
        s.system(tag + 'shared', [self.ks[c] for c in SHARED])
        s.system(tag + 'inner', [self.ks[c] for c in INNER])
        self.composite = Composite(s.objs[tag + 'inner'])
        self.own = [SuperpositionApproximation() for _ in range(callers)]
        self.out = [[] for _ in range(callers)]
        for c in range(callers):
            s.objs[self.name(c)] = self.own[c]

    def name(self, c):
        return '%sown%d' % (self.tag, c)

    def job(self, c):
        def run():
            for op in self.progs[c]:
                if op['op'] == 'add':
                    pfs = [self.composite if b == COMPOSITE else self.s.pfs[self.ks[b]] for b in op['b']]
                    r = _try(self.own[c].add_partition_functions, pfs)
                else:
                    obj = self.own[c] if op['o'] == 'own' else self.s.objs[self.tag + 'shared']
                    fn = getattr(obj, rec.METHOD[op['w']])
                    r = _try(fn, self.Ts[c], OBS) if op['w'] == 'A' else _try(fn, self.Ts[c])
                self.out[c].append(r)
        return run

    def tell(self, like=None):
        """write down what every caller was answered; `like`: events of the same answers given alone"""
        s, told = self.s, []
        for c, prog in enumerate(self.progs):
            s.ev.append({'op': 'new', 'o': self.name(c), 'exc': ''})
            for j, op in enumerate(prog):
                res, exc = self.out[c][j] if j < len(self.out[c]) else (None, 'did not return')
                if op['op'] == 'add':
                    ps = []
                    for b in op['b']:
                        ps += [self.ks[x] for x in (INNER if b == COMPOSITE else [b])]
                    s.ev.append({'op': 'add', 'o': self.name(c), 'ps': ps, 'exc': exc, 'intact': s.intact()})
                    continue
                o = self.name(c) if op['o'] == 'own' else self.tag + 'shared'
                w, T = op['w'], self.Ts[c]
                k0 = like[len(told)] if like else None
                rel = [rel_value(k0, 2 if w in 'PZ' else 1, len(T))] if like else []
                told.append(s._reply({'op': 'q', 'o': o, 'what': w, 'rel': rel,
                                      'chk': {'P': ['dist', 'weights'], 'C': ['heat']}.get(w, [])},
                                     res, exc, T, list(range(len(T))), OBS if w == 'A' else None, keep=False))
        return told


OBS = np.array([[1.25], [-3.5]])


def h29(rng, i, h):
    s = Session('schedule %s' % h)
    progs, sched = h['prog'], h['sched']
    n = len(progs)
    used = {b for p in progs for op in p if op['op'] == 'add' for b in op['b'] if b != COMPOSITE}
    data = {}
    for c in sorted(used | set(SHARED) | set(INNER)):
        data[c] = gen.contrib(rng, KIND[c], 2, 3, estyle='small', fstyle='typ')[1]
    M = int(choice(rng, [1, 2, 3]))
    same = int(rng.integers(2))
    Ts = [np.sort(rng.uniform(150, 1500, M if same else int(choice(rng, [1, 2, 3])))) for _ in range(n)]
    alone = World(s, data, 'x', n, progs, Ts)
    fine = rng.integers(3) == 0
    total, steps = [], [sum(k for c, k in sched if c == d + 1) for d in range(n)]
    for c in range(n):
        t = Turns([alone.job(c)], fine)
        t.finish()
        total.append(t.lines[0])
    told = alone.tell()
    seen = set()
    for again in range(REPEATS):
        both = World(s, data, 'y%d' % again, n, progs, Ts)
        t = Turns([both.job(c) for c in range(n)], fine)
        done = [0] * n
        for c, k in sched:
            c -= 1
            done[c] += k
            # anywhere within the last step of the turn
            low = (done[c] - 1) * total[c] // max(1, steps[c])
            to = int(rng.integers(low, done[c] * total[c] // max(1, steps[c]) + 1))
            t.turn(c, max(0, to - t.lines[c]))
        t.finish()
        # answers that are equal to the last bit make the same trace: judged once
        same = repr([[(r if r is None else np.asarray(r).tolist(), exc) for r, exc in told_] for told_ in both.out])
        if same not in seen:
            seen.add(same)
            both.tell(told)
    return s
