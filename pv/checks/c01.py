"""C01 accumulation."""
import numpy as np
from hypothesis import strategies as st

from .. import aggr, gen
from ..aggcheck import build_fields, expect_result, run_aggregator, e2e_case, e2e_check
from ..engine import Check, Sub, expect, fail


@st.composite
def unit_case(draw):
    S = draw(gen.steps(max_steps=7))
    a = draw(st.sampled_from([6, 24, 3, 1, 12, 2, 4, 5]))
    last = S[-1]
    a = min(a, last)
    start = draw(st.sampled_from([0, a, 0, 2 * a, 3 * a, a + 1])) if draw(st.booleans()) else 0
    first = start or a
    if first > last:
        start, first = 0, a
    if first < a:
        start = a
    end = draw(st.one_of(st.just(last), st.integers(max(first, 1), last)))
    n = draw(st.integers(1, 3))
    return dict(S=S, a=a, unit=draw(st.sampled_from([24, 6, 1, a, 12])), start=start, end=end, force=draw(st.booleans()), n=n,
                fields=draw(gen.fields(S, n)), order=draw(st.permutations(range(len(S)))))


def unit_check(case, rec):
    F, keys = build_fields(case, 'accum')
    S = case['S']
    if case['force'] and 0 in F:
        # the README limits the forced zeros to the first map: keep step 0 out of every other use
        rec.label('force with step 0')
    want = aggr.accumulation(F, case['a'], case['unit'], case['start'], case['end'], case['force'])
    interp0 = case['force'] and 0 in F and any(t not in F and min(k for k in F if k > t) == sorted(F)[1]
                                               for lo, hi in want for t in (lo, hi) if t and t < sorted(F)[-1]) if len(F) > 1 else False
    if interp0:
        rec.label('skipped: forced zero also interpolated')
        return
    got = run_aggregator(case, keys, 'accumulation', 'accum')
    made = [t for lo, hi in want for t in (lo, hi) if t not in F]
    rec.label('interpolated' if any(made) else 'exact', 'zeros' if 0 not in F and any(lo == 0 for lo, _ in want) else 'no zeros',
              'masked' if any(f['m'] and any(f['m']) for f in case['fields']) else 'unmasked', f'windows {min(len(want), 4)}')
    rec.hit(len(want) >= 2 or bool(made))
    expect_result(got, want, case['a'])


CHECK = Check(
    'C01',
    [Sub('windows', unit_case, unit_check, 4800, 200000,
         rule='generated sets of end steps (regular, changing, gappy, with or without step 0), aggregation step, unit time, start, end, forceZeroArray, field values and bitmaps '
              'given to the aggregator; non-trivial: at least two windows or a field that has to be created'),
     Sub('runs', lambda: e2e_case('accumulation'), e2e_check, 640, 30000,
         rule='whole command line runs with accumulation on generated GRIB files, grib_nearest on cells at the grid points; non-trivial: at least two maps written')],
    rule='generated aggregation requests against an independent model of the documented formula; non-trivial as given per sub-check',
    assumptions=['requested windows lie inside the time span of the file (end not after the last available step)',
                 'the forced zero field replaces step 0 in the first window only, as the README says'],
    quick_s=45)
