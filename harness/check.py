#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property.

1. model checking: TLC checks the property on the specification (exhaustively within the stated constants);
2. conformance: the real code is run (histories printed by TLC, seeded inputs), what it did is recorded,
   and TLC validates the recording against the same specification.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the machinery failed.
"""
import concurrent.futures as cf
import contextlib
import io
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')

import tlc          # noqa: E402
import models       # noqa: E402

CHUNK_BYTES = 3_000_000
PROCS = 8


def seeded(prop, seed, stage, i):
    import numpy as np
    return np.random.default_rng([seed, int(prop[1:]), stage, i])


def produce(prop, seed, stage, lo, hi, extra, path):
    """worker: run driver `stage` of `prop` for indices lo..hi-1, write one session per line"""
    import logging
    logging.disable(logging.CRITICAL)
    import drivers
    st = drivers.STAGES[prop][stage]
    slow = 0
    n = 0
    with open(path, 'w') as out:
        for i in range(lo, hi):
            rng = seeded(prop, seed, stage, i)
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    s = st.run(rng, i, extra[i] if extra is not None else None)
                except Exception:                       # the code did something the driver cannot cope with
                    s = {'note': '%s #%d' % (prop, i),
                         'ev': [{'op': 'driver', 'exc': traceback.format_exc()[-1500:]}]}
            if not isinstance(s, dict):
                s = s.dump()
            s['prop'], s['stage'], s['index'], s['seed'] = prop, stage, i, seed
            if extra is not None:
                s['extra'] = extra[i]
            out.write(json.dumps(s) + '\n')
            n += 1
            slow += sum('Timeout' in str(e.get('exc', '')) for e in s['ev'])
            if slow >= 2:
                break
    return path, n


def split(path, tmp, tag):
    """cut a file of sessions into chunks TLC loads comfortably"""
    out, cur, size, files = None, [], 0, []
    with open(path) as f:
        lines = f.readlines()
    for ln in lines:
        if cur and size + len(ln) > CHUNK_BYTES:
            files.append(cur)
            cur, size = [], 0
        cur.append(ln)
        size += len(ln)
    if cur:
        files.append(cur)
    names = []
    for k, c in enumerate(files):
        name = os.path.join(tmp, '%s.%d.ndjson' % (tag, k))
        with open(name, 'w') as f:
            f.writelines(c)
        names.append(name)
    return names


def validate(spec, path, workers=2):
    """TLC on one chunk: list of (session line, event, clause); raises TlcError"""
    with open(path) as f:
        sessions = [json.loads(x) for x in f]
    want = sum(len(s['ev']) + 1 for s in sessions)
    ok, gen, dist, out = tlc.run(spec, 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n', {'TRACE': path}, workers)
    fails = models.parse_fails(out)
    if ok and gen == want:
        return fails, gen, dist, sessions
    if len(sessions) == 1:
        if 'Attempted to' in out or 'evaluat' in out.lower() or (ok and gen != want):
            return fails + [(1, len(sessions[0]['ev']), 'no-step')], gen, dist, sessions
        raise tlc.TlcError(tlc.tail(out))
    if ok and gen != want:
        pass                       # some session has an event no action explains: find it
    elif 'Attempted to' not in out and 'evaluat' not in out.lower():
        raise tlc.TlcError(tlc.tail(out))
    # narrow down by halves
    fails, gen, dist = [], 0, 0
    h = len(sessions) // 2
    with open(path) as f:
        lines = f.readlines()
    for part, off in ((lines[:h], 0), (lines[h:], h)):
        p2 = path + '.%d' % off
        with open(p2, 'w') as f:
            f.writelines(part)
        f2, g2, d2, _ = validate(spec, p2, workers)
        fails += [(a + off, b, c) for a, b, c in f2]
        gen += g2
        dist += d2
    return fails, gen, dist, sessions


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    tlc.build()
    tmp = tempfile.mkdtemp(prefix='occuprob-%s-' % prop)
    try:
        return decide(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(prop, n, s, ev, clause):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, n))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'clause': clause, 'event': ev,
                   'what': models.readable(s['ev'][ev - 1]) if 0 < ev <= len(s['ev']) else None,
                   'how': './replay %s  (runs the code again and validates the new recording)' % path,
                   'session': s}, f)
    return path


def decide(prop, tier, seed, t0, tmp):
    thorough = tier == 'thorough'
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'models': [],
           'events_validated': 0, 'trace_states': 0}

    # -- 1. the specification ------------------------------------------------------------------
    hists = {}
    for m in models.MODELS.get(prop, []):
        cfg = m.cfg(thorough)
        ok, gen, dist, out = tlc.run(m.module, cfg, m.env, workers=8, mem='8g', timeout=3000 if thorough else 600)
        if not ok:
            print(tlc.tail(out))
            print('the specification itself does not have the property (%s)' % m.name)
            return 2
        cov['states'] += dist
        cov['transitions'] += gen
        cov['models'].append({'model': m.name, 'constants_and_properties': cfg.split('\n'),
                              'distinct_states': dist, 'states_generated': gen, 'exhaustive': True})
        if m.histories:
            hists[m.histories] = models.parse_histories(out)

    # -- 2. run the code ------------------------------------------------------------------------
    try:
        import drivers
    except Exception:
        s = {'note': 'import', 'ev': [{'op': 'driver', 'exc': traceback.format_exc()[-1500:]}]}
        path = report(prop, 0, s, 1, 'import')
        print(traceback.format_exc())
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    ctx = mp.get_context('fork')
    jobs = []
    chunks = []           # (spec, path)
    with cf.ProcessPoolExecutor(PROCS, mp_context=ctx) as pool:
        for k, st in enumerate(drivers.STAGES[prop]):
            extra = None
            n = st.thorough if thorough else st.quick
            if st.histories:
                extra = st.select(hists[st.histories], thorough, seed)
                n = len(extra)
            step = max(1, -(-n // (PROCS * 2)))
            for lo in range(0, n, step):
                p = os.path.join(tmp, 's%d.%d' % (k, lo))
                jobs.append((k, pool.submit(produce, prop, seed, k, lo, min(n, lo + step), extra, p)))
        for k, j in jobs:
            p, n = j.result()
            chunks += [(drivers.STAGES[prop][k].spec, c) for c in split(p, tmp, 'c%s' % os.path.basename(p))]
    # merge small chunks of the same spec
    merged = {}
    files = []
    for spec, p in chunks:
        cur = merged.get(spec)
        if cur and os.path.getsize(cur) + os.path.getsize(p) <= CHUNK_BYTES:
            with open(cur, 'a') as f, open(p) as g:
                f.write(g.read())
        else:
            merged[spec] = p
            files.append((spec, p))
    known = drivers.known_sessions(prop)
    for spec, s in known:
        p = os.path.join(tmp, 'known.%s.ndjson' % s['finding'])
        with open(p, 'w') as f:
            f.write(json.dumps(s) + '\n')
        files.append((spec, p))

    # -- 3. validate the recordings ------------------------------------------------------------
    bad = []
    with cf.ThreadPoolExecutor(4) as pool:
        for fut in [pool.submit(validate, spec, p) for spec, p in files]:
            fails, gen, dist, sessions = fut.result()
            cov['trace_states'] += gen
            cov['traces_validated_against_impl'] += len(sessions)
            cov['events_validated'] += sum(len(s['ev']) for s in sessions)
            if sessions and len(cov['samples']) < 3:
                cov['samples'].append(models.sample(sessions[len(sessions) // 2]))
            for a, b, c in fails:
                bad.append((sessions[a - 1], b, c))
            for s in sessions:
                if 'finding' in s:
                    got = sorted({(b, c) for a, b, c in fails})
                    want = sorted((b, c) for b, c in s['expect'])
                    if got and set(got) <= set(want):
                        print('KNOWN-FINDING: property=%s %s' % (prop, s['what']))
                        bad = [x for x in bad if x[0] is not s]
    cov['traces_validated_against_impl'] -= len(known)
    cov['states'] += cov['trace_states']
    cov['transitions'] += cov['trace_states']
    shown, lines = set(), []
    for s, b, c in bad:
        key = (c, s['ev'][b - 1].get('op'), s['ev'][b - 1].get('what')) if 0 < b <= len(s['ev']) else (c,)
        if key in shown or len(shown) > 12:
            continue
        shown.add(key)
        path = report(prop, len(shown), s, b, c)
        print('%s, event %d: clause "%s" fails: %s' % (s['note'], b, c, models.brief(s, b)))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    print('\n'.join(lines), flush=True) if lines else None

    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': 'model_checking', 'coverage': cov,
          'assumptions': models.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not bad:
        print('%s %s: %d model states, %d traces (%d events) conform, %.0f s' % (
            prop, tier, cov['states'] - cov['trace_states'], cov['traces_validated_against_impl'],
            cov['events_validated'], time.time() - t0))
    return 1 if bad else 0


if __name__ == '__main__':
    try:
        rc = main()
    except tlc.TlcError as err:
        print('machinery: %s' % err)
        rc = 2
    sys.exit(rc)
