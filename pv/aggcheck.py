"""What C01, C02 and C03 share: driving the aggregator and whole runs."""
import os

import numpy as np
from hypothesis import strategies as st

from . import aggr, gen, world
from .engine import expect, fail


def build_fields(case, step_type):
    """-> ({end step: masked array}, [(Step, array)] in the generated order)."""
    from pyg2p import Step
    F, pairs = {}, []
    S = case['S']
    for s, f in zip(S, case['fields']):
        v = np.array(f['v'], float)
        if f['m'] is not None:
            x = np.ma.masked_where(np.array(f['m'], bool), v)
        else:
            x = v
        F[s] = np.ma.array(v, mask=np.array(f['m'], bool) if f['m'] is not None else np.zeros(v.shape, bool))
        pairs.append((Step(0 if step_type == 'accum' else s, s, 7, case.get('input_step', S[1] - S[0] if len(S) > 1 else S[0]), 0), x))
    return F, [pairs[i] for i in case['order']]


def run_aggregator(case, pairs, kind, step_type, halfweights=False):
    from pyg2p.main.manipulation.aggregator import Aggregator
    S = case['S']
    a = Aggregator(aggr_step=case['a'], aggr_type=kind, aggr_halfweights=halfweights, input_step=S[1] - S[0] if len(S) > 1 else S[0], step_type=step_type,
                   start_step=case['start'], mv_grib=9999.0, end_step=case['end'], unit_time=case.get('unit', 24), force_zero_array=case.get('force', False))
    return a.do_manipulation(dict((k, v.copy()) for k, v in pairs))


def expect_result(got, want, a, tol=1e-9):
    keys = sorted((k.start_step, k.end_step) for k in got)
    expect(keys == sorted(want), lambda: f'windows {keys}, expected {sorted(want)}')
    for k, v in got.items():
        err = aggr.compare(v, want[(k.start_step, k.end_step)], f'window {k.start_step}-{k.end_step}', tol)
        expect(err is None, err)


# ------------------------------------------------------------------ whole runs
GRID = {'type': 'regular_ll', 'lat0': 50.0, 'lon0': 5.0, 'dlat': 1.0, 'dlon': 1.0}


@st.composite
def e2e_case(draw, kind):
    S = draw(gen.steps(min_size=2, max_steps=6))
    a = min(draw(st.sampled_from([6, 24, 3, 12, 2])), S[-1])
    ni, nj = draw(st.integers(2, 3)), draw(st.integers(2, 3))
    n = ni * nj
    start = draw(st.sampled_from([None, 0, a, 2 * a]))
    if start and start > S[-1]:
        start = None
    first = start or a
    end = draw(st.one_of(st.none(), st.integers(max(first, 1), S[-1])))
    return dict(kind=kind, S=S, a=a, unit=draw(st.sampled_from([24, 6, a])), start=start, end=end, ni=ni, nj=nj,
                force=draw(st.booleans()) if kind == 'accumulation' else False,
                half=draw(st.booleans()) if kind == 'average' else False,
                stepType='accum' if kind == 'accumulation' and draw(st.booleans()) else 'avg' if kind == 'average' and S[0] and draw(st.integers(0, 2)) == 0 else 'instant',
                edition=draw(st.sampled_from([1, 2])),
                by_json=draw(st.booleans()),
                fields=draw(gen.fields(S, n)), order=draw(st.permutations(range(len(S)))))


def target_on_grid(w, ni, nj):
    lats = [[GRID['lat0'] - j * GRID['dlat'] for _ in range(ni)] for j in range(nj)]
    lons = [[GRID['lon0'] + i * GRID['dlon'] for i in range(ni)] for _ in range(nj)]
    return w.target(lats, lons)


def e2e_check(case, rec):
    grid = dict(GRID, ni=case['ni'], nj=case['nj'])
    kind, S, a = case['kind'], case['S'], case['a']
    short = 'tp' if case['stepType'] == 'accum' else '2t'
    with world.World() as w:
        msgs = [dict(grid=grid, values=case['fields'][i]['v'], missing=case['fields'][i]['m'], shortName=short, edition=1 if case['stepType'] == 'avg' else case['edition'],
                     stepType=case['stepType'], start=S[i - 1] if case['stepType'] == 'avg' and i else 0, end=S[i]) for i in case['order']]
        g = world.write_grib(w.p('in.grb'), msgs)
        stored = world.read_grib(g)
        F = {d['endStep']: np.ma.array(d['values'], mask=d['mask']) for d in stored}
        maps = target_on_grid(w, case['ni'], case['nj'])
        agg = {'@step': a, '@type': kind}
        if case['force']:
            agg['@forceZeroArray'] = 'true'
        if case['half']:
            agg['@halfweights'] = True
        par = {}
        argv = ['-i', g, '-o', w.out, '-B']
        for name, opt, v in (('@tstart', '-s', case['start']), ('@tend', '-e', case['end'])):
            if v is not None:
                if case['by_json'] and v:
                    par[name] = v
                else:
                    argv += [opt, v]
        c = w.command('c.json', maps, 'grib_nearest', shortName=short, parameter=par, aggregation=agg, outmaps={'@unitTime': case['unit'], '@namePrefix': 'o'})
        r = w.run('-c', c, *argv)
        start, end = case['start'] or 0, case['end'] or max(S)
        outs = w.pcr_outputs()
        # nothing but the messages of the file and the request counts: F is everything the windows may use
        sel = F
        if kind == 'accumulation':
            if case['force'] and 0 in sel and a not in sel:
                rec.label('skipped: forced zero also interpolated')
                return
            want = aggr.accumulation(sel, a, case['unit'], start, end, case['force'])
        elif kind == 'average' and not case['half']:
            want = aggr.average(sel, a, start, end)
        elif kind == 'average':
            want = {}
            for t in range(start or a, end + 1, a):
                if t - a not in sel or t not in sel:
                    rec.label('skipped: half weights without both ends')
                    return
                want[(t - a, t)], even = aggr.average_half_window(sel, t - a, t)
                if not even:
                    rec.label('skipped: uneven half weights')
                    return
        else:
            want = aggr.instantaneous(sel, a, start, end)
        expect(r.exc is None and r.status == 0, lambda: f'run failed: {r}')
        names = sorted(outs)
        expect(len(names) == len(want), lambda: f'{len(names)} maps ({names}), expected {len(want)} for {sorted(want)}')
        rec.label(f'maps {min(len(want), 4)}', case['stepType'], f'GRIB{case["edition"]}')
        rec.hit(len(want) >= 2)
        for name, key in zip(names, sorted(want)):
            got = outs[name]
            wv, wm = aggr.split(want[key])
            wv, wm = wv.reshape(got.shape), wm.reshape(got.shape)
            err = aggr.compare(np.ma.masked_invalid(got), np.ma.array(wv, mask=wm), f'map {name} ({key})', 2e-6,
                               scale=max(1.0, max(float(np.max(np.abs(np.ma.getdata(f)))) if np.ma.getdata(f).size else 1 for f in [np.where(np.ma.getmaskarray(x), 0, np.ma.getdata(x)) for x in sel.values()]) * case['unit'] / a * 2))
            expect(err is None, err)
