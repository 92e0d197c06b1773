"""C06 selection of GRIB messages, their values and the facts of the file."""
import glob

import numpy as np
from hypothesis import strategies as st

from .. import aggcheck, aggr, world
from ..engine import Check, Sub, expect

NAMES = ('2t', 'tp', 't', 'ssrd', '10u')
ACCUM = ('tp', 'ssrd')
GRID = dict(aggcheck.GRID, ni=2, nj=2)


@st.composite
def pool(draw):
    """Messages of a file: a subset of a product of parameters, levels, members, dates, times and steps, in any order."""
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    if 't' not in names and draw(st.integers(0, 2)) == 0:
        names.append('t')
    members = draw(st.sampled_from([[None], [None], [0, 1], [1, 2, 3], [None, 1], [0, 5]]))
    dates = draw(st.sampled_from([[20200102], [20200102, 20200103], [20191231, 20200101]]))
    times = draw(st.sampled_from([[1200], [0], [0, 1200], [600, 1200], [0, 1800]]))
    levels = draw(st.sampled_from([[500], [500, 850], [1, 10, 1000]]))
    # the steps depend on the parameter, so that the facts of the file do too
    step_sets = [[0, 6, 12, 18], [6, 12, 18, 24], [3, 6, 9, 12], [0, 6, 12, 24, 36], [24], [0], [12, 24], [0, 3, 6, 12, 18], [6, 12], [1, 2, 3]]
    ms = []
    for n in names:
        steps = draw(st.sampled_from(step_sets))
        if n in ACCUM:
            steps = [s for s in steps if s] or [6]
        windows = n in ACCUM and draw(st.integers(0, 3)) == 0     # accumulated on each interval instead of from the start
        edition = draw(st.sampled_from([1, 2]))
        # the message at step 0 of an accumulated parameter is of an instant
        zero = n in ACCUM and not windows and edition == 1 and draw(st.integers(0, 2)) == 0
        avg = n in ('2t', '10u') and edition == 1 and draw(st.integers(0, 3)) == 0
        if avg:
            steps = [s for s in steps if s] or [6]
        for m in members:
            for d in dates:
                for t in times:
                    other = draw(st.integers(0, 3)) == 0
                    own = [s + 6 for s in steps] if other else steps
                    for lev in (levels if n == 't' else [None]):
                        if zero:
                            ms.append(dict(shortName=n, number=m, date=d, time=t, level=lev, end=0, edition=edition, stepType='instant', start=0))
                        for i, s in enumerate(own):
                            prev = own[i - 1] if i else 0
                            ms.append(dict(shortName=n, number=m, date=d, time=t, level=lev, end=s, edition=edition, stepType='avg' if avg else 'accum' if n in ACCUM else 'instant',
                                           start=prev if windows or avg else 0 if n in ACCUM else s))
    if draw(st.integers(0, 2)) == 0:
        drop = draw(st.lists(st.integers(0, len(ms)), max_size=len(ms) // 3))
        ms = [x for i, x in enumerate(ms) if i not in drop] or ms[:1]
    if len(ms) > 36:
        ms = ms[::2][:36]
    order = draw(st.permutations(range(len(ms)))) if draw(st.integers(0, 3)) else list(range(len(ms)))
    masked = draw(st.lists(st.integers(0, len(ms) - 1), max_size=3))
    return ms, list(order), masked


def step_type(sel):
    """A message at step 0 of an accumulated parameter doesn't make it an instantaneous one."""
    types = {m['stepType'] for m in sel}
    return 'accum' if 'accum' in types else min(types)


def wanted(ms, req, start=None, end=None):
    """Indices of the messages which match a request."""
    out = []
    for i, m in enumerate(ms):
        if m['shortName'] != req['shortName'] or req.get('number') is not None and m['number'] != req['number']:
            continue
        if any(req.get(k) is not None and m[k] != req[k] for k in ('date', 'time')) or req.get('level') is not None and m['level'] != req['level']:
            continue
        if start is not None and (m['start'] < start or m['end'] > end or start == end and (m['start'], m['end']) != (start, end)):
            continue
        out.append(i)
    return out


@st.composite
def request(draw, ms, unique_level):
    base = draw(st.sampled_from(ms))
    req = dict(shortName=base['shortName'], number=None, date=None, time=None, level=None)
    same = [m for m in ms if m['shortName'] == base['shortName']]
    for k in ('number', 'date', 'time', 'level'):
        many = len({m[k] for m in same}) > 1
        if base[k] is not None and (many and (k != 'level' or unique_level) or draw(st.integers(0, 2)) == 0):
            req[k] = base[k]
    return req


@st.composite
def reader_case(draw):
    ms, order, masked = draw(pool())
    req = draw(request(ms, False))
    sel = [ms[i] for i in wanted(ms, req)]
    ends = sorted({m['end'] for m in sel})
    starts = sorted({m['start'] for m in sel})
    rng = None
    if draw(st.booleans()):
        s = draw(st.one_of(st.sampled_from(starts), st.integers(0, max(ends) + 1)))
        rng = [s, draw(st.one_of(st.sampled_from([e for e in ends if e >= s] or [s]), st.integers(s, max(ends) + 7)))]
        if draw(st.integers(0, 4)) == 0:
            rng = [rng[0], rng[0]]
    return dict(ms=ms, order=order, masked=masked, req=req, rng=rng, names=draw(st.booleans()))


def message(m, i, case):
    n = 4
    vals = [float(i * 8 + j) for j in range(n)]
    missing = [j == i % n for j in range(n)] if i in case['masked'] else None
    return dict(grid=GRID, values=vals, missing=missing, bits=24,
                **{k: m[k] for k in ('shortName', 'number', 'date', 'time', 'level', 'edition', 'stepType', 'start', 'end')})


def write(w, case):
    g = world.write_grib(w.p('in.grb'), [message(case['ms'][i], i, case) for i in case['order']])
    stored = world.read_grib(g)
    return g, {i: np.ma.array(d['values'], mask=d['mask']) for i, d in zip(case['order'], stored)}


def reader_check(case, rec):
    from pyg2p.main.readers.grib import GRIBReader
    ms, req = case['ms'], case['req']
    keys = wanted(ms, req)
    steps = [(ms[i]['start'], ms[i]['end'], ms[i]['level']) for i in keys]
    if len(set(steps)) != len(steps):
        rec.label('skipped: ambiguous request')
        return
    with world.World() as w:
        g, stored = write(w, case)
        args = {'shortName': req['shortName']}
        for a, b in (('number', 'perturbationNumber'), ('date', 'dataDate'), ('time', 'dataTime'), ('level', 'level')):
            if req[a] is not None:
                args[b] = req[a]
        reader = GRIBReader(g, w_perturb=req['number'] is not None)
        try:
            info = reader.get_grib_info(dict(args))
            sel = [ms[i] for i in keys]
            ends = sorted(m['end'] for m in sel)
            last = max(ends)
            types = {step_type(sel)}
            expect(info.start == min(m['start'] for m in sel) and info.end == last, lambda: f'first and last step {info.start} {info.end}, expected those of {steps}')
            expect(info.type_of_param in types, lambda: f'step type {info.type_of_param}, expected {types}')
            expect(info.mv == world.MV, lambda: f'missing value {info.mv}, expected {world.MV}')
            if len(set(ends)) == len(ends):
                want = ends[1] - ends[0] if len(ends) > 1 else ends[0] - sel[0]['start']
                expect(info.input_step == want, lambda: f'input step {info.input_step}, expected {want} for {steps}')
            rng = case['rng']
            args2 = dict(args, shortName=[args['shortName'], args['shortName'].upper(), args['shortName'] + 'var']) if case['names'] else dict(args)
            if rng:
                s, e = rng
                if s == e:
                    args2.update(startStep=s, endStep=e)
                else:
                    args2.update(startStep=lambda x: x >= s, endStep=lambda x: x <= e)
                keys = wanted(ms, req, s, e)
            try:
                messages = reader.select_messages(**args2)
            except Exception as exc:
                expect(not keys, lambda: f'{exc!r}, but the messages {steps} match {req} {rng}')
                rec.label('no messages')
                return
            if rng and not keys and s and s != e:
                rec.label('no message from the first step on: all those before are used')
                return
            got = messages.first_resolution_values()
            have = sorted(((k.start_step, k.end_step, k.level) for k in got), key=str)
            want = sorted(((ms[i]['start'], ms[i]['end'], ms[i]['level']) for i in keys), key=str)
            strip = ms[keys[0]]['level'] is None if keys else False
            if strip:
                have, want = [x[:2] for x in have], [x[:2] for x in want]
            expect(have == want, lambda: f'messages {have} read, expected {want} for {req} {rng}')
            for k, v in got.items():
                i = [i for i in keys if (ms[i]['start'], ms[i]['end']) == (k.start_step, k.end_step) and (strip or ms[i]['level'] == k.level)][0]
                x = stored[i]
                expect(np.array_equal(np.ma.getmaskarray(v), np.ma.getmaskarray(x)) and np.array_equal(np.ma.filled(v, 0), np.ma.filled(x, 0)), lambda: f'{k}: {v!r}, the file holds {x!r}')
            if keys:
                expect(messages.step_type == step_type([ms[i] for i in keys]), lambda: f'step type {messages.step_type}')
        finally:
            reader.close()
    rec.label(f'{min(len(keys), 5)} messages', *[f'by {k}' for k, v in req.items() if v is not None], 'range' if rng else 'all steps')
    rec.hit(0 < len(keys) < len(ms))


# ------------------------------------------------------------------ whole runs
@st.composite
def run_case(draw):
    ms, order, masked = draw(pool())
    req = draw(request(ms, True))
    sel = [ms[i] for i in wanted(ms, req)]
    ends = sorted({m['end'] for m in sel})
    start = end = None
    if draw(st.integers(0, 2)):
        m = draw(st.sampled_from(sel))
        start = draw(st.sampled_from([None, m['start']]))
        end = draw(st.one_of(st.none(), st.sampled_from([e for e in ends if e >= m['end']])))
    t = step_type(sel)
    kind = draw(st.sampled_from([None, 'accumulation'] if t == 'accum' else [None, 'average'] if t == 'avg' else [None, 'accumulation', 'average', 'instantaneous', 'instantaneous']))
    if draw(st.integers(0, 11)) == 5:
        req[draw(st.sampled_from(['number', 'date', 'time', 'level']))] = 7
        kind = None
    return dict(ms=ms, order=order, masked=masked, req=req, start=start, end=end, kind=kind, a=draw(st.sampled_from([6, 12])), by_json=draw(st.lists(st.booleans(), min_size=5, max_size=5)), as_text=draw(st.booleans()), fmt=draw(st.sampled_from(['pcraster', 'pcraster', 'netcdf'])))


def run_check(case, rec):
    ms, req, kind, a = case['ms'], case['req'], case['kind'], case['a']
    keys = wanted(ms, req)
    steps = [(ms[i]['start'], ms[i]['end']) for i in keys]
    if len({e for _, e in steps}) != len(steps):
        rec.label('skipped: ambiguous request')
        return
    with world.World() as w:
        g, stored = write(w, case)
        maps = aggcheck.target_on_grid(w, 2, 2)
        par, argv = {}, []
        for name, opt, v, js in (('@perturbationNumber', '-m', req['number'], case['by_json'][0]), ('@dataDate', '-D', req['date'], case['by_json'][1]), ('@dataTime', '-T', req['time'], case['by_json'][2]),
                                 ('@tstart', '-s', case['start'], case['by_json'][3]), ('@tend', '-e', case['end'], case['by_json'][4])):
            if v is None:
                continue
            if js or opt == '-T' and v not in (0, 1200):
                par[name] = str(v) if case['as_text'] else v
            else:
                argv += [opt, v]
        if req['level'] is not None:
            par['@level'] = str(req['level']) if case['as_text'] else req['level']
        agg = {'@step': a, '@type': kind} if kind else None
        c = w.command('c.json', maps, 'grib_nearest', shortName=req['shortName'], parameter=par, aggregation=agg, outmaps={'@unitTime': a, '@namePrefix': 'o', '@format': case['fmt']})
        start = case['start'] or 0
        end = case['end'] if case['end'] is not None else max([e for _, e in steps], default=0)
        F = {ms[i]['end']: stored[i] for i in keys}
        if not kind:
            chosen = wanted(ms, req, start, end)
            if keys and not chosen and start and start != end:
                rec.label('skipped: no message from the first step on')
                return
            want = {(ms[i]['end'], ms[i]['end']): stored[i] for i in chosen}
        else:
            st_ = sorted(F)
            kt = step_type([ms[i] for i in keys])
            if end < a or start and start < a or st_[0] > a or kind == 'instantaneous' and kt == 'avg' or start > end or kind == 'accumulation' and end > st_[-1]:
                rec.label('skipped: no windows')
                return
            if kind == 'accumulation':
                want = aggr.accumulation(F, a, a, start, end, False)
            elif kind == 'average':
                want = aggr.average(F, a, start, end)
            else:
                want = aggr.instantaneous(F, a, start, end)
        r = w.run('-c', c, '-i', g, '-o', w.out, '-B', *argv)
        got = w.maps(case['fmt'])
        if not want:
            # (the exit status of a run without messages is zero by design)
            expect(not got.size, lambda: f'maps of a run without messages: {got.tolist()}')
            rec.label('no messages')
            rec.hit()
            return
        expect(r.exc is None and r.status == 0, lambda: f'run failed: {r}')
        expect(len(got) == len(want), lambda: f'{len(got)} maps, expected {len(want)} for {sorted(want)} of {req}')
        for k, m in zip(sorted(want), got):
            x, mask = aggr.split(want[k])
            err = aggr.compare(np.ma.masked_invalid(m), np.ma.array(x.reshape(m.shape), mask=mask.reshape(m.shape)), f'map of {k}', 2e-6, scale=500.0)
            expect(err is None, lambda: f'{err} ({req})')
        dates = {(ms[i]['date'], ms[i]['time']) for i in keys}
        if case['fmt'] == 'netcdf' and len(dates) == 1:
            nc = world.read_nc(glob.glob(w.out + '/*.nc')[0], 'o')
            d, t = dates.pop()
            expect(f'since {str(d)[:4]}-{str(d)[4:6]}-{str(d)[6:]} {t // 100:02d}:{t % 100:02d}' in nc['time_units'], lambda: f'time since {nc["time_units"]}, but the messages are of {d} {t}')
    rec.label(f'{min(len(want), 4)} maps', kind or 'no aggregation', *[f'by {k}' for k, v in req.items() if v is not None])
    rec.hit(len(keys) < len(ms))


CHECK = Check(
    'C06',
    [Sub('reader', reader_case, reader_check, 2600, 120000,
         rule='generated files mixing parameters, levels, members, dates, times, steps and editions, read through the reader with generated requests; non-trivial: some but not all messages match'),
     Sub('runs', run_case, run_check, 1600, 50000,
         rule='whole runs with selectors by option or command file, without and with aggregation; each message has values of its own; non-trivial: the file holds messages which do not match')],
    rule='messages, values and facts compared with a plain filter of the generated list of messages and values decoded by ecCodes; see the sub-checks',
    assumptions=['requests for which several messages of the same steps match (a selector left out although the file has several members, dates or times) are not judged',
                 'when no message starts at or after the first step requested, pyg2p falls back to the messages before it: not judged'],
    quick_s=60)
