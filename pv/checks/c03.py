"""C03 instantaneous aggregation, and the rejection of average and instantaneous for accumulated parameters."""
import os

from hypothesis import strategies as st

from .. import aggr, gen, world
from ..aggcheck import GRID, build_fields, expect_result, run_aggregator, e2e_case, e2e_check, target_on_grid
from ..engine import Check, Sub, expect, fail


@st.composite
def unit_case(draw):
    S = draw(gen.steps(max_steps=7))
    a = draw(st.sampled_from([6, 24, 3, 1, 12, 2, 4, 5]))
    last = S[-1]
    step_type = draw(st.sampled_from(['instant', 'instant', 'max', 'avg']))
    start = draw(st.sampled_from([0, a, 2 * a, 3 * a, a + 1, 1]))
    end = draw(st.one_of(st.just(last), st.integers(0, last)))
    inp = S[1] - S[0] if len(S) > 1 else S[0]
    n = draw(st.integers(1, 3))
    if aggr.instant_start(start, a, step_type, inp) > end:
        start, end = 0, last
    return dict(S=S, a=a, start=start, end=end, n=n, step_type=step_type, fields=draw(gen.fields(S, n)), order=draw(st.permutations(range(len(S)))))


def unit_check(case, rec):
    F, pairs = build_fields(case, case['step_type'])
    S = case['S']
    inp = S[1] - S[0] if len(S) > 1 else S[0]
    got = run_aggregator(case, pairs, 'instantaneous', case['step_type'])
    want = aggr.instantaneous(F, case['a'], case['start'], case['end'], case['step_type'], inp)
    exact = sum(t in F for _, t in want)
    rec.label(case['step_type'], f'maps {min(len(want), 4)}', 'exact' if exact == len(want) else 'next available', 'zero step' if (0, 0) in want and 0 not in F else 'no zero step')
    rec.hit(len(want) >= 2 and exact < len(want) or len(want) >= 3)
    keys = sorted(k.end_step for k in got)
    expect(keys == sorted(t for _, t in want), lambda: f'maps at steps {keys}, expected {sorted(t for _, t in want)}')
    for k, v in got.items():
        err = aggr.compare(v, want[(k.end_step, k.end_step)], f'step {k.end_step}', 0.0)
        expect(err is None, err)


@st.composite
def reject_case(draw):
    return dict(kind=draw(st.sampled_from(['average', 'instantaneous'])), S=draw(gen.steps(min_size=2, max_steps=5, zero=False)), a=draw(st.sampled_from([6, 24, 3, 1])),
                edition=draw(st.sampled_from([1, 2])), half=draw(st.booleans()), start=draw(st.booleans()), level=draw(st.sampled_from(['unit', 'run', 'run'])),
                fmt=draw(st.sampled_from(['pcraster', 'netcdf'])), values=draw(gen.values(4, 0, 20)), zero=draw(st.booleans()))


def reject_check(case, rec):
    S, a = case['S'], min(case['a'], case['S'][-1])
    rec.label(case['kind'], case['level'])
    rec.hit()
    if case['level'] == 'unit':
        from pyg2p.exceptions import ApplicationException
        c = dict(case, a=a, start=0, end=S[-1], n=4, fields=[dict(v=case['values'], m=None) for _ in S], order=list(range(len(S))))
        F, pairs = build_fields(c, 'accum')
        try:
            got = run_aggregator(c, pairs, case['kind'], 'accum', halfweights=case['half'])
        except ApplicationException:
            return
        fail(f'{case["kind"]} of an accumulated parameter gave {sorted(got)} instead of an error')
    with world.World() as w:
        grid = dict(GRID, ni=2, nj=2)
        g = world.write_grib(w.p('in.grb'), [dict(grid=grid, values=case['values'], shortName='tp', edition=case['edition'], stepType='accum', start=0, end=s) for s in S]
                              + ([dict(grid=grid, values=case['values'], shortName='tp', edition=1, stepType='instant', end=0)] if case['zero'] else []))
        maps = target_on_grid(w, 2, 2)
        agg = {'@step': a, '@type': case['kind']}
        if case['half']:
            agg['@halfweights'] = True
        c = w.command('c.json', maps, 'grib_nearest', shortName='tp', aggregation=agg, outmaps={'@namePrefix': 'o'})
        argv = ['-c', c, '-i', g, '-o', w.out, '-B', '-F', case['fmt']]
        if case['start']:
            argv += ['-s', a]
        r = w.run(*argv)
        expect(r.exc is None and r.status == 1, lambda: f'{case["kind"]} of an accumulated parameter is not rejected: {r}')
        expect(len(r.log) > 0, 'no error logged')
        left = [f for f in os.listdir(w.out)]
        expect(not [f for f in left if not f.endswith('.nc')], lambda: f'maps written: {left}')
        for f in left:
            # a file may have been opened, but it holds no map
            d = world.read_nc(w.p('out', f), 'o') if os.path.getsize(w.p('out', f)) else None
            expect(d is None or d['values'].shape[0] == 0, 'maps written')


CHECK = Check(
    'C03',
    [Sub('steps', unit_case, unit_check, 8000, 300000,
         rule='generated end steps, aggregation step, start, end, step type, values and bitmaps given to the aggregator; non-trivial: two maps with one taken from a later step, or three maps'),
     Sub('runs', lambda: e2e_case('instantaneous'), e2e_check, 1200, 40000,
         rule='whole command line runs with instantaneous aggregation on generated GRIB files; non-trivial: at least two maps written'),
     Sub('rejected', reject_case, reject_check, 400, 8000,
         rule='average or instantaneous requested for a parameter whose messages have stepType accum (aggregator and whole runs in both formats); every case is non-trivial')],
    rule='generated instantaneous requests against an independent model; non-trivial as given per sub-check',
    assumptions=['the first map is at start minus the aggregation step when that is positive, else at start (at start plus the input step for parameters of step type avg)',
                 'requested steps lie inside the time span of the file'],
    quick_s=45)
