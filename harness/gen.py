"""Hypothesis strategies shared by the checks. All randomness comes from Hypothesis."""
import math
from hypothesis import strategies as st

D = st.integers(0, 99)


def unit():
    """Uniform on [0, 1] with six digits (Hypothesis favours small values in one wide integer range, so use three)."""
    return st.tuples(D, D, D).map(lambda t: (t[0] * 10000 + t[1] * 100 + t[2]) / 999999)


def uni(lo, hi, digits=7):
    """Uniform floats in [lo, hi] (shrink towards lo), few significant digits so replays are readable."""
    return unit().map(lambda x: min(max(float('%.*g' % (digits, lo + (hi - lo) * x)), lo), hi))


def logu(lo, hi, digits=7):
    """Log-uniform floats in [lo, hi]."""
    a, b = math.log(lo), math.log(hi)
    return unit().map(lambda x: min(max(float('%.*g' % (digits, math.exp(a + (b - a) * x))), lo), hi))


def pick(*xs):
    return st.sampled_from(list(xs))


def opt(s):
    return st.one_of(st.none(), s)
