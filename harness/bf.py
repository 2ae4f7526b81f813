"""Exact conversion of numbers to the BigFloat tuples of spec/BigFloat.tla."""
import math
from fractions import Fraction
import numpy as np

W = 12


def _limbs(m):
    out = []
    while m:
        out.append(m & 4095)
        m >>= W
    return out


def bf(x):
    """float / numpy float / int / Fraction with power-of-two denominator -> [s, e, limbs...]"""
    if isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)):
        n, e = int(x), 0
    elif isinstance(x, Fraction):
        n, d = x.numerator, x.denominator
        e = -(d.bit_length() - 1)
        assert d == 1 << -e
    elif isinstance(x, (np.bool_, bool)):
        n, e = int(x), 0
    else:
        if np.isnan(x):
            return [3]
        if np.isinf(x):
            return [2] if x > 0 else [-2]
        m, ex = np.frexp(x)
        n = int(np.ldexp(m, 64))
        e = int(ex) - 64
    if n == 0:
        return [0, 0]
    s = 1 if n > 0 else -1
    n = abs(n)
    tz = (n & -n).bit_length() - 1
    n >>= tz
    return [s, e + tz] + _limbs(n)


def bfs(a):
    """nested array -> nested lists of BigFloat tuples"""
    a = np.asarray(a)
    if a.ndim == 0:
        return bf(a[()])
    return [bfs(r) for r in a]


def unbf(t):
    if len(t) == 1:
        return {2: math.inf, -2: -math.inf, 3: math.nan}[t[0]]
    m = 0
    for limb in reversed(t[2:]):
        m = (m << W) | limb
    return t[0] * Fraction(m) * Fraction(2) ** t[1]


def fl(t):
    """readable float of a BigFloat tuple (for reports)"""
    v = unbf(t)
    if isinstance(v, float):
        return v
    try:
        return float(v)
    except OverflowError:
        return math.inf if v > 0 else -math.inf
