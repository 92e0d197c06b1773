"""Reference model of the documented aggregations, written from the README and the property text."""
import numpy as np


def interp_field(S, F, t):
    """Field at step t: available, else linear in time between its bracketing fields (step 0 missing: zeros)."""
    if t in S:
        return F[t]
    ks = sorted(S)
    if t < ks[0]:
        if t == 0:
            return np.ma.zeros(F[ks[0]].shape)
        lo, flo = 0, np.ma.zeros(F[ks[0]].shape)
        hi = ks[0]
        return flo + (F[hi] - flo) * ((t - lo) / (hi - lo))
    lo = max(k for k in ks if k < t)
    hi = min(k for k in ks if k > t)
    return F[lo] + (F[hi] - F[lo]) * ((t - lo) / (hi - lo))


def accumulation(F, a, unit, start, end, force):
    """{(from, to): field}"""
    start = start or a
    out = {}
    for t in range(start, end + 1, a):
        now = interp_field(F.keys(), F, t)
        if t - a == 0 and force:
            prev = np.ma.zeros(now.shape)
        else:
            prev = interp_field(F.keys(), F, t - a)
        out[(t - a, t)] = (now - prev) * unit / a
    return out


def next_available(S, t):
    c = [k for k in S if k >= t]
    return min(c) if c else None


def average(F, a, start, end):
    start = start or a
    out = {}
    for t in range(start, end + 1, a):
        tot = 0
        for h in range(t - a + 1, t + 1):
            tot = tot + F[next_available(F.keys(), h)]
        out[(t - a, t)] = tot / a
    return out


def average_half_window(F, lo, hi):
    """Trapezoidal mean of a window whose two ends are available: (field, evenly spaced?)."""
    ks = sorted(k for k in F if lo <= k <= hi)
    n = len(ks) - 1
    tot = F[ks[0]] * 0.5 + F[ks[-1]] * 0.5
    for k in ks[1:-1]:
        tot = tot + F[k]
    gaps = {b - a for a, b in zip(ks, ks[1:])}
    return tot / n, len(gaps) == 1


def instant_start(start, a, step_type, input_step):
    if step_type == 'avg':
        return start + input_step
    return start - a if start - a > 0 else start


def instantaneous(F, a, start, end, step_type='instant', input_step=0):
    out = {}
    for t in range(instant_start(start, a, step_type, input_step), end + 1, a):
        if t == 0 and 0 not in F:
            out[(t, t)] = np.ma.zeros(next(iter(F.values())).shape)
        else:
            out[(t, t)] = F[next_available(F.keys(), t)]
    return out


# ------------------------------------------------------------------ comparisons
def split(x):
    m = np.ma.getmaskarray(np.ma.asarray(x))
    return np.asarray(np.ma.getdata(x), float), m


def compare(got, want, what, tol=1e-9, masks=True, scale=None):
    """None, or a description of the first difference between two (masked) fields."""
    g, gm = split(got)
    w, wm = split(want)
    if g.shape != w.shape:
        return f'{what}: shape {g.shape} instead of {w.shape}'
    if masks and (gm != wm).any():
        i = int(np.argmax(gm.ravel() != wm.ravel()))
        return f'{what}: cell {i} is {"missing" if gm.ravel()[i] else repr(g.ravel()[i])}, expected {"missing" if wm.ravel()[i] else repr(w.ravel()[i])}'
    ok = ~wm & ~gm
    if not masks:
        ok = ~wm
    s = scale if scale is not None else max(1.0, float(np.max(np.abs(w[ok]))) if ok.any() else 1.0)
    bad = ok & ~(np.abs(g - w) <= tol * s)
    if bad.any():
        i = int(np.argmax(bad.ravel()))
        return f'{what}: cell {i} is {g.ravel()[i]!r}, expected {w.ravel()[i]!r}'
    return None
