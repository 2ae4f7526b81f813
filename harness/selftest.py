#!/usr/bin/env python3
"""The Java accelerator computes exactly what spec/BigFloat.tla defines: SelfTest with and without it."""
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc

tlc.build()
got = []
with tempfile.TemporaryDirectory() as d:
    for fast in (True, False):
        p = os.path.join(d, 'out%d.json' % fast)
        ok, _, _, out = tlc.run('SelfTest', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', {'SELFTEST_OUT': p},
                                workers=1, fast=fast, timeout=900)
        if not ok:
            sys.exit(tlc.tail(out))
        got.append(open(p).read())
if got[0] != got[1]:
    sys.exit('the Java accelerator and BigFloat.tla differ')
print('BigFloat.tla and its accelerator agree on %d bytes of results' % len(got[0]))
