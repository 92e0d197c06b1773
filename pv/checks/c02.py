"""C02 average."""
import numpy as np
from hypothesis import strategies as st

from .. import aggr, gen
from ..aggcheck import build_fields, expect_result, run_aggregator, e2e_case, e2e_check
from ..engine import Check, Sub, expect


@st.composite
def unit_case(draw):
    half = draw(st.booleans())
    if half and draw(st.integers(0, 3)):
        k = draw(st.sampled_from([6, 3, 1, 2, 12]))
        n = draw(st.integers(1, 8))
        S = [k * i for i in range(n + 1)]
        a = k * draw(st.sampled_from([1, 2, 4, 3]))
    else:
        S = draw(gen.steps(max_steps=7))
        a = draw(st.sampled_from([6, 24, 3, 1, 12, 2, 4, 5]))
    last = S[-1]
    a = min(a, last)
    start = draw(st.sampled_from([0, 0, a, 2 * a, 3 * a, a + 1, a + 2]))
    first = start or a
    if first > last:
        start, first = 0, a
    end = draw(st.one_of(st.just(last), st.integers(max(first, 1), last)))
    n = draw(st.integers(1, 3))
    return dict(S=S, a=a, start=start, end=end, half=half, n=n, step_type=draw(st.sampled_from(['instant', 'avg', 'max'])),
                fields=draw(gen.fields(S, n)), order=draw(st.permutations(range(len(S)))))


def unit_check(case, rec):
    F, pairs = build_fields(case, case['step_type'])
    S, a, half = case['S'], case['a'], case['half']
    got = run_aggregator(case, pairs, 'average', case['step_type'], halfweights=half)
    keys = sorted((k.start_step, k.end_step) for k in got)
    first = case['start'] or a
    windows = [(t - a, t) for t in range(first, case['end'] + 1, a)]
    expect(keys == windows, lambda: f'windows {keys}, expected {windows}')
    rec.label('half' if half else 'plain', f'windows {min(len(windows), 4)}', 'masked' if any(f['m'] and any(f['m']) for f in case['fields']) else 'unmasked')
    rec.hit(len(windows) >= 2 or len(S) >= 3)
    if not half:
        expect_result(got, aggr.average(F, a, case['start'], case['end']), a)
        return
    for k, v in got.items():
        lo, hi = k.start_step, k.end_step
        used = [F[s] for s in S if lo <= s <= hi]
        if lo in F and hi in F:
            want, even = aggr.average_half_window(F, lo, hi)
            if even:
                rec.label('exact trapezoid')
                err = aggr.compare(v, want, f'window {lo}-{hi}')
                expect(err is None, err)
                continue
        rec.label('uneven window')
        if len(used) < 2:
            continue
        gv, gm = aggr.split(v)
        d = np.array([np.ma.getdata(u) for u in used])
        ok = ~gm
        expect(bool(np.all((gv >= d.min(0) - 1e-6) & (gv <= d.max(0) + 1e-6) | ~ok)), lambda: f'window {lo}-{hi}: {gv} outside the range of the fields of the window')


CHECK = Check(
    'C02',
    [Sub('windows', unit_case, unit_check, 8000, 300000,
         rule='generated end steps, aggregation step, start, end, half weights, values and bitmaps given to the aggregator; non-trivial: at least two windows or three fields'),
     Sub('runs', lambda: e2e_case('average'), e2e_check, 1200, 40000,
         rule='whole command line runs with average (with and without half weights) on generated GRIB files; non-trivial: at least two maps written')],
    rule='generated average requests against an independent model of the documented weights; non-trivial as given per sub-check',
    assumptions=['requested windows lie inside the time span of the file (end not after the last available step)',
                 'half weights are compared exactly for windows whose two ends are available and whose fields are evenly spaced; otherwise the result only has to lie in the range of the fields of the window'],
    quick_s=45)
