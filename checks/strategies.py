"""Hypothesis strategies shared by the Python-side properties"""
from hypothesis import strategies as st

import wire


def scalar(t, fmt):
    lo, hi = wire.representable(t, fmt)
    if t[0] == "b":
        return st.booleans()
    edges = sorted({v for v in [0, 1, 2, -1, -2, lo, lo + 1, hi, hi - 1, 127, 128, 255, 256, -128, -129, 0x7FFF, 0x8000, hi // 2, 0x0102030405060708 & hi]
                    if lo <= v <= hi})
    return st.one_of(st.sampled_from(edges), st.integers(lo, hi))


def expand(pattern, changes, n):
    out = [pattern[i % len(pattern)] for i in range(n)]
    for i, v in changes:
        out[i] = v
    return out


def value(t, fmt):
    """A value that the format can represent"""
    if t[2] is not None and t[2] > 12:
        # a pattern repeated along the array, and a few other values
        one = scalar([t[0], t[1], None], fmt)
        return st.tuples(st.lists(one, min_size=1, max_size=7), st.lists(st.tuples(st.integers(0, t[2] - 1), one), max_size=4)).map(
            lambda x: expand(x[0], x[1], t[2]))
    if t[2] is not None:
        return st.lists(scalar([t[0], t[1], None], fmt), min_size=t[2], max_size=t[2])
    return scalar(t, fmt)


def bad_scalar(t):
    """A value outside the range of an integer type, or of another type"""
    lo, hi = wire.bounds(t)
    ints = st.one_of(st.sampled_from([lo - 1, hi + 1, 1 << 8 * t[1], -(1 << 8 * t[1]), 1 << 64, -(1 << 63) - 1, 10**30, (hi + 1) * 2, lo - 256]),
                     st.integers(hi + 1, hi + (1 << 70)), st.integers(lo - (1 << 70), lo - 1))
    return st.one_of(ints, ints, st.sampled_from([1.5, "1", None, [1], {}]))


def bad_value(t, fmt):
    """A value which no parameter or result of type `t` can hold; None if it is not possible to tell"""
    one = [t[0], t[1], None]
    if t[2] is None:
        return None if t[0] == "b" else bad_scalar(t)
    wrong_length = st.integers(0, t[2] + 3).filter(lambda n: n != t[2]).flatmap(
        lambda n: value([t[0], t[1], n], fmt))
    options = [wrong_length, st.sampled_from([1, None, 2.5])]
    if t[0] != "b":
        options.append(st.tuples(value(t, fmt), st.integers(0, t[2] - 1), bad_scalar(one)).map(
            lambda x: x[0][:x[1]] + [x[2]] + x[0][x[1] + 1:]))
    return st.one_of(options)
