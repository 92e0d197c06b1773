"""C23 the time axis states the true validity times of the maps."""
import datetime as dt
import os
import re

import numpy as np
from hypothesis import strategies as st

from .. import aggr, request, scene, world
from ..engine import Check, Sub, expect
from . import c10

SECONDS = {'s': 1, 'm': 60, 'h': 3600, '3h': 10800, '6h': 21600, '12h': 43200, 'D': 86400}
NAMES = {'seconds': 's', 'minutes': 'm', 'hours': 'h', '3h steps': '3h', '6h steps': '6h', '12h steps': '12h', 'days': 'D'}
NOT_CONVERTED = ['M', 'Y', '10Y', '30Y', 'C', 'hours', 'H', 'x', '1']
GRID = dict(type='regular_ll', ni=3, nj=3, lat0=50.0, lon0=5.0, dlat=1.0, dlon=1.0)
TARGET = dict(rows=2, cols=1, ty=[0.125, 1.3125], tx=[0.125, 0.125], netcdf=False, coord_mask=None, clone_mask=None)


def unit_():
    return st.one_of(st.none(), st.sampled_from(sorted(SECONDS)), st.sampled_from(sorted(SECONDS)), st.sampled_from(sorted(SECONDS)), st.sampled_from(NOT_CONVERTED))


@st.composite
def reference_(draw):
    day = dt.date(1900, 3, 1) + dt.timedelta(days=draw(st.one_of(st.integers(0, 73000), st.sampled_from([43829, 43888, 0, 36525, 43981]))))
    h = draw(st.one_of(st.sampled_from([0, 12, 6, 18]), st.integers(0, 23)))
    m = draw(st.one_of(st.just(0), st.sampled_from([0, 30, 15, 45, 59, 1])))
    return int(day.strftime('%Y%m%d')), h * 100 + m


@st.composite
def case_(draw):
    date, time = draw(reference_())
    kind = draw(st.sampled_from([None, None, 'instantaneous', 'accumulation', 'average']))
    accum = kind == 'accumulation' and draw(st.booleans())
    edition = draw(st.sampled_from([1, 2])) if not accum else 2
    n = draw(st.sampled_from([2, 3, 4, 6, 9, 13]))
    base = draw(st.sampled_from([1, 2, 3, 5, 6, 6, 7, 12, 24, 24, 36]))
    shape = draw(st.sampled_from(['regular', 'changing', 'gaps', 'far']))
    r = np.random.default_rng(draw(st.integers(0, 9999)))
    if shape == 'regular':
        S = [base * (i + 1) for i in range(n)]
    elif shape == 'changing':
        k = n // 2
        S = [base * (i + 1) for i in range(k)]
        S += [S[-1] + base * 2 * (i + 1) for i in range(n - k)]
    elif shape == 'far':
        far = draw(st.sampled_from([240, 720, 1080, 3000, 5160, 8640]))
        S = [far - far % base + base * (i + 1) for i in range(n)]
    else:
        S = np.cumsum(r.integers(1, 30, n)).tolist()
        kind = None if kind in ('average', 'accumulation') else kind
        accum = False
    if draw(st.booleans()) and shape != 'far':
        S = [0] + S
    a = base * draw(st.sampled_from([1, 1, 2, 3]))
    if kind in ('accumulation', 'average') and shape == 'changing':
        a = base * 2
    return dict(date=date, time=time, kind=kind, accum=accum, edition=edition, S=[int(s) for s in S], a=a, start=draw(st.sampled_from([0, 0, 1])), end=draw(st.sampled_from([0, 0, 1])), unit=draw(unit_()), by_json=draw(st.booleans()),
                order=draw(st.integers(0, 999)), far=shape == 'far', vf=draw(st.sampled_from([None, None, 'f4'])))


def axis(path, unit):
    """[validity time], [step in hours], unit, decoded from the file alone."""
    nc = world.read_nc(path, 'o')
    m = re.fullmatch(r'(\S.*\S) since (\d+)-(\d+)-(\d+)[ T](\d+):(\d+)(?::(\d+)(?:\.0*)?)?', nc['time_units'])
    expect(m is not None and m.group(1) in NAMES, lambda: f'units of the time coordinate {nc["time_units"]!r}')
    expect(nc['time_calendar'] in ('proleptic_gregorian', 'standard', 'gregorian'), lambda: f'calendar {nc["time_calendar"]!r}')
    have = NAMES[m.group(1)]
    want = unit if unit in SECONDS else 'h'
    expect(have == want, lambda: f'unit of the time coordinate {have!r}, requested {unit!r}')
    ref = dt.datetime(*(int(x or 0) for x in m.groups()[1:]))
    t = np.asarray(nc['time'], float)
    secs = t * SECONDS[have]
    return [ref + dt.timedelta(seconds=float(s)) for s in secs], ref, t, nc['values']


def judge(path, unit, date, time, steps):
    times, ref, raw, values = axis(path, unit)
    base = dt.datetime(date // 10000, date // 100 % 100, date % 100, time // 100, time % 100)
    expect(len(times) == len(steps) == len(values), lambda: f'{len(times)} times and {len(values)} maps, expected {len(steps)} (steps {steps})')
    for t, s in zip(times, steps):
        good = base + dt.timedelta(hours=int(s))
        expect(abs((t - good).total_seconds()) < 1e-3, lambda: f'validity time {t}, reference {base} and step {s} h give {good} (unit {unit!r}, times {raw.tolist()})')
    expect((np.diff(raw) > 0).all(), lambda: f'times not increasing: {raw.tolist()}')
    return values


def check(case, rec):
    S, kind, a = case['S'], case['kind'], case['a']
    accum = case['accum']
    with world.World() as w:
        short = 'tp' if accum else '2t'
        val = {s: float(i + 1) * (1 if not accum else 0.01) for i, s in enumerate(S)}
        msgs = [dict(grid=GRID, values=[val[s] * k for k in (1, 1, 1, 2, 2, 2, 3, 3, 3)], shortName=short, start=0, end=s, date=case['date'], time=case['time'], edition=case['edition'], **({'stepType': 'accum'} if accum else {})) for s in S]
        msgs = [msgs[i] for i in np.random.default_rng(case['order']).permutation(len(msgs))]
        try:
            g = world.write_grib(w.p('a.grb'), msgs)
        except world.HarnessError:
            rec.label('skipped: step not representable')
            return
        F = {x['endStep']: x['values'] for x in world.read_grib(g)}
        maps, *_ = scene.make_target(w, GRID, TARGET)
        last = S[-1]
        start = end = None
        if kind is None:
            if case['start'] and len(S) > 2:
                start = S[1]
            if case['end'] and len(S) > 3 and not accum:
                end = S[-2]
            want = [s for s in S if (start or 0) <= s <= (end if end is not None else last)]
        else:
            if case['far']:
                # from where the messages are
                start = -(-(S[0] + a) // a) * a
                if kind == 'accumulation' and start - a not in F:
                    start = S[0] + a
            elif case['start']:
                start = 2 * a
            if case['end']:
                end = (start or a) + (last - (start or a)) // 2
            e = end if end is not None else last
            if (start or a) > e:
                rec.label('skipped: no window')
                return
            s0 = start or 0
            f = {'accumulation': lambda: aggr.accumulation(F, a, 24, s0, e, False), 'average': lambda: aggr.average(F, a, s0, e), 'instantaneous': lambda: aggr.instantaneous(F, a, s0, e)}[kind]()
            want = sorted(k[1] for k in f)
        if not want:
            rec.label('skipped: no window')
            return
        unit = case['unit']
        om, argv, par = {'@namePrefix': 'o', '@format': 'netcdf'}, [], {}
        if unit is not None:
            if case['by_json']:
                om['@outputStepUnits'] = unit
            else:
                argv += ['-U', unit]
        if case['vf']:
            om['@valueFormat'] = case['vf']
        for k, o, v in (('@tstart', '-s', start), ('@tend', '-e', end)):
            if v is not None:
                argv += [o, v]
        c = w.command('c.json', maps, 'grib_nearest', shortName=short, parameter=par, outmaps=om, aggregation={'@step': a, '@type': kind} if kind else None)
        r = w.run('-c', c, '-i', g, '-o', w.out, '-B', *argv)
        expect(r.exc is None and r.status == 0, lambda: f'the run failed: {r}')
        values = judge(os.path.join(w.out, f'o_{kind}.nc'), unit, case['date'], case['time'], want)
        if kind is None:
            # every time goes with its map
            for s, v in zip(want, values):
                expect(abs(v[0, 0] - F[s][0]) <= 1e-6 * max(1, abs(F[s][0])), lambda: f'the map at step {s} has {v[0, 0]!r}, the message {F[s][0]!r}')
    rec.label(f'unit {"not convertible" if unit in NOT_CONVERTED else unit}', f'kind {kind}', f'edition {case["edition"]}', 'beyond 10 days' if want[-1] > 240 else 'short', 'whole hour' if case['time'] % 100 == 0 else 'minutes', f'{min(len(want), 4)} maps',
              *(['fractional times'] if unit in SECONDS and any(s * 3600 % SECONDS[unit] for s in want) else []), *(['accumulated'] if accum else []))
    rec.hit(len(want) > 1 and (case['time'] != 1200 or unit is not None))


# -- whole runs of the general kind, one or two resolutions
@st.composite
def run_(draw):
    case = draw(request.case_())
    date, time = draw(reference_())
    case.update(fmt='netcdf', corr=None, date=date, time=time, axis_unit=draw(unit_()))
    case['noise'] = [x for x in case['noise'] if x in ('other member', 'other parameter', 'other level') or date != 20200103 and x == 'other date' or time != 0 and x == 'other time']
    # options accept 0 and 1200 only
    if time not in (0, 1200):
        case['by_json'] = True
    return case


def check_run(case, rec):
    c10.quick_progress()
    with world.World() as w:
        q = request.Request(w, case)
        want = q.expected()
        if want is None:
            rec.label('skipped: not settled by the documentation')
            return
        om = {'@outputStepUnits': case['axis_unit']} if case['axis_unit'] is not None and case['by_json'] else {}
        argv = ['-U', case['axis_unit']] if case['axis_unit'] is not None and not case['by_json'] else []
        r = w.run(*q.argv(w.out, **om), *argv)
        expect(r.exc is None and r.status == 0, lambda: f'the run failed: {r}')
        f = os.listdir(w.out)
        expect(len(f) == 1, lambda: f'files {f}')
        judge(os.path.join(w.out, f[0]), case['axis_unit'], case['date'], case['time'], [t for t, _ in want])
    rec.label(case['mode'], f'kind {case["kind"]}', f'unit {"not convertible" if case["axis_unit"] in NOT_CONVERTED else case["axis_unit"]}', *(['two resolutions'] if case['two'] else []), *(['among others'] if case['noise'] else []), f'{min(len(want), 4)} maps')
    rec.hit(len(want) > 1 and (case['time'] != 1200 or case['axis_unit'] is not None))


CHECK = Check(
    'C23', [Sub('axis', case_, check, 3000, 100000,
                rule='netCDF runs with generated reference dates (1900-2099) and times of day to the minute, steps up to a year, aggregations, start and end, and output step units, in either edition and any message order; non-trivial: two maps or more, and another '
                     'reference time than 12 or a requested unit'),
            Sub('runs', run_, check_run, 1000, 40000,
                rule='the general whole runs of C22 with generated reference dates and times and output step units, also two resolutions; same non-trivial rule')],
    rule='the time coordinate decoded from its own units and reference, in integer arithmetic, against the reference date and time of the messages plus the end steps of the documented windows',
    assumptions=['source units are hours: ecCodes gives hours for every step which is a whole number of them, others are not supported by pyg2p'], quick_s=60)
