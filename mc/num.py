"""Comparison of floats and the reference arithmetic."""
import math
import struct

from . import env

mp = env.mpmath()
mp.mp.dps = 60
mpf = mp.mpf
INF = float('inf')
NAN = float('nan')


def bits(x):
    return struct.pack('<d', x)


def same(a, b):
    """Same float, NaN and signed zeros included, and both real floats."""
    return (isinstance(a, float) and isinstance(b, float)
            and (bits(a) == bits(b) or (a != a and b != b)))


def close(got, ref, rel=1e-9, scale=0.0, tiny=1e-290):
    """got ~ ref, relative to max(|ref|, scale); NaN and inf must agree."""
    if ref != ref:
        return got != got
    if got != got:
        return False
    if math.isinf(ref) or math.isinf(got):
        return got == ref
    return abs(got-ref) <= rel*max(abs(ref), scale) + tiny


def to_float(x):
    """mpf to float, with overflow to infinity."""
    try:
        return float(x)
    except OverflowError:
        return INF if x > 0 else -INF


def fname(x):
    """JSON-safe exact name of a number."""
    if isinstance(x, float):
        return x.hex() if x == x and abs(x) != INF else repr(x)
    return repr(x)


def quad(components):
    """sqrt of the sum of squares of non-negative floats, accurately."""
    comps = list(components)
    if any(c != c for c in comps):
        return NAN
    if any(math.isinf(c) for c in comps):
        return INF
    return to_float(mp.sqrt(mp.fsum(mpf(c)**2 for c in comps)))


def fast_quad(components):
    comps = list(components)
    if any(c != c for c in comps):
        return NAN
    return math.hypot(*comps) if comps else 0.0
