"""Shared Hypothesis strategies for the core."""
from hypothesis import strategies as st
from vlib import ref


def logfloat(lo, hi):
    import math
    return st.floats(math.log(lo), math.log(hi), allow_nan=False).map(lambda x: float("%.6g" % math.exp(x)))


def nice(lo, hi, digits=4):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda x: round(x, digits))


def angle():
    return st.one_of(st.sampled_from([0.0, 90.0, 45.0, 180.0, -90.0, 30.0, 270.0, 360.0]), nice(-400, 400, 3))


def seed32():
    return st.one_of(st.integers(0, 20), st.integers(0, 2**32 - 1), st.sampled_from([2**31, 2**32 - 1, 2**31 - 1]))


def power():
    return st.one_of(st.sampled_from([1.0, 1.5, 2.0, 1.1, 1.9]), nice(0.3, 2.0, 3))
