"""Shared hypothesis strategies. Every case is plain JSON."""
from hypothesis import strategies as st

MV = 9999.0


def steps(min_size=1, max_steps=8, zero=None):
    """Sorted lists of available end steps: regular, changing and gappy, with or without step 0."""
    @st.composite
    def f(draw):
        kind = draw(st.sampled_from(['regular', 'regular', 'changing', 'gappy']))
        n = draw(st.integers(min_size, max_steps))
        k = draw(st.sampled_from([6, 3, 1, 2, 12, 24]))
        if kind == 'regular':
            s = [k * (i + 1) for i in range(n)]
        elif kind == 'changing':
            k2 = draw(st.sampled_from([3, 6, 12, 2, 1]))
            m = draw(st.integers(1, n))
            s = [k * (i + 1) for i in range(m)]
            s += [s[-1] + k2 * (i + 1) for i in range(n - m)]
        else:
            gaps = draw(st.lists(st.integers(1, 9), min_size=n, max_size=n))
            s, t = [], 0
            for g in gaps:
                t += g
                s.append(t)
        with_zero = draw(st.booleans()) if zero is None else zero
        if with_zero:
            s = [0] + s
        return s
    return f()


def values(n, lo=-50.0, hi=50.0, missing_code=False):
    special = [0.0, 1.0, -1.0, 10.0] + ([MV] if missing_code else [])
    return st.lists(st.one_of(st.sampled_from(special), st.integers(int(lo), int(hi)).map(float), st.floats(lo, hi, width=32, allow_subnormal=False)), min_size=n, max_size=n)


def masks(n):
    """A missing pattern: None (no bitmap) or a list of booleans with at least one missing cell."""
    return st.one_of(st.none(), st.lists(st.booleans(), min_size=n, max_size=n))


@st.composite
def fields(draw, keys, n, with_masks=True, lo=-50.0, hi=50.0):
    out = []
    for _ in keys:
        out.append({'v': draw(values(n, lo, hi)), 'm': draw(masks(n)) if with_masks else None})
    return out
