#!/usr/bin/env python3
"""replay.py <replay file>: run the code in /repo again on what a replay file describes, and validate the new
recording.  Exit 1 if it fails again, 0 if it conforms now."""
import json
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import check     # noqa: E402  (sets the number of threads before numpy)
import models    # noqa: E402
import tlc       # noqa: E402


def main(path):
    with open(path) as f:
        r = json.load(f)
    prop, s = r['property'], r['session']
    tlc.build()
    tmp = tempfile.mkdtemp(prefix='occuprob-replay-')
    try:
        import drivers
        if 'finding' in s:
            spec = next(sp for sp, x in drivers.known_sessions(prop) if x['finding'] == s['finding'])
            new = next(x for sp, x in drivers.known_sessions(prop) if x['finding'] == s['finding'])
        elif 'stage' not in s:
            print('nothing to run: %s' % s['note'])
            return 1
        else:
            i = s['index']
            spec = drivers.STAGES[prop][s['stage']].spec
            extra = [None] * i + [s['extra']] if 'extra' in s else None
            out = os.path.join(tmp, 'one')
            check.produce(prop, s['seed'], s['stage'], i, i + 1, extra, out)
            with open(out) as f:
                new = json.loads(f.readline())
        p = os.path.join(tmp, 't.ndjson')
        with open(p, 'w') as f:
            f.write(json.dumps(new) + '\n')
        fails, _, _, _ = check.validate(spec, p)
        print('recorded: %s' % s['note'])
        for _, b, c in fails:
            print('event %d: clause "%s" fails: %s' % (b, c, models.brief(new, b)))
        if not fails:
            print('conforms (%d events)' % len(new['ev']))
        return 1 if fails else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
