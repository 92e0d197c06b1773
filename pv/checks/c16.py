"""C16 settings: command line, then command file, then defaults; path variables; rejected requests."""
import json
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from .. import world
from ..engine import Check, Sub, expect
from . import c10
from .c13 import name_8_3

GRID = dict(type='regular_ll', ni=3, nj=3, lat0=50.0, lon0=5.0, dlat=1.0, dlon=1.0)
LON, LAT = np.meshgrid([5.0, 6.0], [50.0, 49.0])

# name: short option, long option, place in the command file, name, effective key, values, default (None: not set)
P, O, I = 'Parameter', 'OutMaps', 'Interpolation'
SETTINGS = {
    'start': ('-s', '--start', P, '@tstart', 'parameter.tstart', [0, 6, 12, 18], None),
    'end': ('-e', '--end', P, '@tend', 'parameter.tend', [0, 18, 24, 36], None),
    'member': ('-m', '--perturbationNumber', P, '@perturbationNumber', 'parameter.perturbationNumber', [0, 1, 2, 5], None),
    'time': ('-T', '--dataTime', P, '@dataTime', 'parameter.dataTime', [0, 1200], None),
    'date': ('-D', '--dataDate', P, '@dataDate', 'parameter.dataDate', [20200103, 20200104, 19991231], None),
    'fmap': ('-f', '--fmap', O, '@fmap', 'outMaps.fmap', [0, 1, 2, 7, 30], 1),
    'format': ('-F', '--format', O, '@format', 'outMaps.format', ['netcdf', 'pcraster'], 'pcraster'),
    'ext': ('-x', '--ext', O, '@ext', 'outMaps.ext', [1, 2, 6, 24], 1),
    'prefix': ('-n', '--namePrefix', O, '@namePrefix', 'outMaps.namePrefix', ['a', 'pT24', 'out', 'x1', '7up', 't.t'], '2t'),
    'scale': ('-S', '--scaleFactor', O, '@scaleFactor', 'outMaps.scaleFactor', [1, 0.5, 0.1, 2.0, 10], 1.0),
    'offset': ('-O', '--offset', O, '@offset', 'outMaps.offset', [0, 0.0, 10, 273.15, 100.5], 0.0),
    'max': ('-vM', '--validMax', O, '@validMax', 'outMaps.validMax', [0, 300, 350.5, 1000], None),
    'min': ('-vm', '--validMin', O, '@validMin', 'outMaps.validMin', [0, 10, 150.5, 250], None),
    'value': ('-vf', '--valueFormat', O, '@valueFormat', 'outMaps.valueFormat', ['f4', 'f8', 'i2', 'i4', 'u1'], None),
    'units': ('-U', '--outputStepUnits', O, '@outputStepUnits', 'outMaps.outputStepUnits', ['s', 'm', 'h', '3h', '6h', '12h', 'D'], None),
}
NUMERIC = {'scale', 'offset', 'max', 'min'}
INTS = {'start', 'end', 'member', 'time', 'date', 'fmap', 'ext'}


def cli(name, value, style):
    short, long = SETTINGS[name][:2]
    return {0: [short, str(value)], 1: [long, str(value)], 2: [f'{long}={value}']}[style]


def settings(names):
    """For each name: (command line value or None, style, command file value or None, as string)"""
    d = {}
    for n in names:
        v = SETTINGS[n][5]
        d[n] = st.tuples(st.one_of(st.none(), st.sampled_from(v)), st.integers(0, 2), st.one_of(st.none(), st.sampled_from(v), *([st.just('')] if n not in NUMERIC and n not in ('value', 'units') else [])), st.booleans())
    return st.fixed_dictionaries(d)


def chosen(given, name):
    c, _, j, _ = given[name]
    if c is not None:
        return c
    if j is not None and j != '':
        return j
    return SETTINGS[name][6]


def section(given, place):
    out = {}
    for n, (c, _, j, as_string) in given.items():
        if SETTINGS[n][2] == place and j is not None:
            out[SETTINGS[n][3]] = str(j) if as_string and n in INTS | NUMERIC else j
    return out


def args(given):
    return [x for n, (c, style, _, _) in given.items() if c is not None for x in cli(n, c, style)]


# ------------------------------------------------------------------ effective settings
MODES = ('grib_nearest', 'grib_invdist', 'nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay')


@st.composite
def effective_case(draw):
    given = draw(settings(SETTINGS))
    return dict(given=given, order=draw(st.integers(0, 999)), mode=draw(st.sampled_from((None,) + MODES)), unit=draw(st.sampled_from([None, 24, '24', 6, 1])), level=draw(st.sampled_from([None, '', 0, '0', 500, '500'])),
                out=draw(st.sampled_from([None, 'out', 'out/', './', 'sub/deep'])), second=draw(st.booleans()), create=draw(st.booleans()), parallel=draw(st.booleans()),
                tables=(draw(st.sampled_from([None, 'cli'])), draw(st.sampled_from([None, 'file', '{WORLD}/var', '']))), geos=(draw(st.sampled_from([None, 'cli'])), draw(st.sampled_from([None, 'file', '{WORLD}/var', '']))),
                conversion=draw(st.sampled_from([None, '', 'k2c', 'k2c_cut', 'aff'])), aggregation=draw(st.sampled_from([None, {}, {'@step': 24}, {'@type': 'average'}, {'@step': 24, '@type': 'average', '@halfweights': True},
                                                                                                                     {'@step': 6, '@type': 'accumulation', '@forceZeroArray': 'true'}, {'@step': 12, '@type': 'instantaneous'}])))


def effective_check(case, rec):
    from pyg2p.main.context import ExecutionContext
    from pyg2p.exceptions import ApplicationException
    given = case['given']
    with world.World() as w:
        maps = w.target(LAT, LON)
        interp = {}
        for (c, j), k in ((case['tables'], '@intertableDir'), (case['geos'], '@geopotentialDir')):
            if j is not None:
                interp[k] = j
        for n in ('in.grb', 'in2.grb'):
            open(w.p(n), 'w').close()
        path = w.command('c.json', maps, 'x', parameter=dict(section(given, P), **({'@level': case['level']} if case['level'] is not None else {}), **({'@applyConversion': case['conversion']} if case['conversion'] is not None else {})),
                         outmaps=section(given, O), aggregation=case['aggregation'], interpolation=interp)
        d = json.load(open(path))
        om = d['Execution']['OutMaps']
        if case['mode'] is None:
            del om['Interpolation']['@mode']
        else:
            om['Interpolation']['@mode'] = case['mode']
        if case['unit'] is None:
            del om['@unitTime']
        else:
            om['@unitTime'] = case['unit']
        json.dump(d, open(path, 'w'))
        opts = [['-c', path], ['-i', w.p('in.grb')]] + ([['-o', case['out']]] if case['out'] else []) + ([['-I', w.p('in2.grb')]] if case['second'] else []) + ([['-B']] if case['create'] else []) + ([['-X']] if case['parallel'] else [])
        opts += [['-N', 'cli']] if case['tables'][0] else []
        opts += [['-G', 'cli']] if case['geos'][0] else []
        opts += [cli(n, c, style) for n, (c, style, _, _) in given.items() if c is not None]
        opts = [opts[i] for i in np.random.default_rng(case['order']).permutation(len(opts))]
        start, end = chosen(given, 'start'), chosen(given, 'end')
        try:
            ctx = ExecutionContext([x for o in opts for x in o])
        except ApplicationException as e:
            expect(start is not None and end is not None and start > end, lambda: f'the request was rejected: {e}')
            rec.label('start after end')
            rec.hit()
            return
        expect(start is None or end is None or start <= end, lambda: f'accepted with start {start} after end {end}')
        both = 0
        for n, s in SETTINGS.items():
            want, got = chosen(given, n), ctx.get(s[4])
            both += given[n][0] is not None and given[n][2] not in (None, '') and given[n][0] != given[n][2]
            if n in NUMERIC and got is not None and want is not None:
                got, want = float(got), float(want)
            expect(got == want and not (n in INTS and isinstance(got, (str, bool))), lambda: f'{n} is {got!r} in place of {want!r} (command line {given[n][0]!r}, command file {given[n][2]!r})')
        for (c, j), k, default in ((case['tables'], 'interpolation.dirs', w.tables), (case['geos'], 'geopotential.dirs', w.geos)):
            want = c or (j.replace('{WORLD}', w.dir) if j else None) or default
            expect(ctx.get(k)['user'] == want, lambda: f'{k} is {ctx.get(k)} in place of {want}')
        for k, want in (('interpolation.mode', case['mode'] or 'grib_nearest'), ('interpolation.create', case['create']), ('interpolation.parallel', case['parallel']), ('input.file', w.p('in.grb')),
                        ('input.file2', w.p('in2.grb') if case['second'] else None), ('parameter.shortName', '2t'), ('outMaps.clone', maps['clone']), ('interpolation.latMap', maps['lat']), ('interpolation.lonMap', maps['lon']),
                        ('parameter.level', None if case['level'] in (None, '') else int(case['level']))):
            expect(ctx.get(k) == want and type(ctx.get(k)) is type(want), lambda: f'{k} is {ctx.get(k)!r} in place of {want!r}')
        expect(int(ctx.get('outMaps.unitTime')) == int(case['unit'] or 24), lambda: f'unitTime is {ctx.get("outMaps.unitTime")!r}')
        expect(os.path.normpath(ctx.get('outMaps.outDir')) == os.path.normpath(case['out'] or './'), lambda: f'output folder is {ctx.get("outMaps.outDir")!r}')
        expect(os.path.isdir(case['out'] or './'), lambda: 'the output folder does not exist')
        expect(ctx.must_do_conversion == bool(case['conversion']), lambda: 'conversion')
        if case['conversion']:
            conv = [c for c in world.DEFAULT_PARAMETERS['2t']['Conversion'] if c['@id'] == case['conversion']][0]
            expect(ctx.get('parameter.conversionFunction') == conv['@function'] and ctx.get('parameter.conversionUnit') == conv['@unit'], lambda: f'conversion {case["conversion"]} is {ctx.get("parameter.conversionFunction")!r}')
        a = case['aggregation'] or {}
        do = bool(a.get('@step') and a.get('@type'))
        expect(bool(ctx.must_do_aggregation) == do, lambda: f'aggregation {a} is {ctx.must_do_aggregation}')
        if do:
            expect((ctx.get('aggregation.step'), ctx.get('aggregation.type'), bool(ctx.get('aggregation.halfweights')), bool(ctx.get('aggregation.forceZeroArray')))
                   == (a['@step'], a['@type'], bool(a.get('@halfweights')), '@forceZeroArray' in a), lambda: f'aggregation {a} not taken')
    rec.label(f'{min(both, 4)} given both ways')
    rec.hit(both > 0)


# ------------------------------------------------------------------ whole runs
STEPS = [6, 12, 18, 24]


@st.composite
def run_case(draw):
    given = draw(settings([n for n in SETTINGS if n not in ('scale', 'offset', 'max', 'min', 'value')]))
    # values which exist
    for n, values in (('start', [0, 6, 12]), ('end', [12, 18, 24, 30]), ('member', [0, 1, 2]), ('time', [0, 1200]), ('date', [20200103, 20200104])):
        c, style, j, s = given[n]
        given[n] = (values[c % len(values)] if c is not None else None, style, values[j % len(values)] if j not in (None, '') else j, s)
    for n in ('prefix',):
        c, style, j, s = given[n]
        given[n] = (c if c != 't.t' else 'tt', style, j if j != 't.t' else 'tt', s)
    number = {k: draw(settings([k]))[k] for k in ('scale', 'offset')}
    c, style, j, s = draw(settings(['value']))['value']
    number['value'] = ({'u1': 'i4', 'i2': 'i4'}.get(c, c), style, {'u1': 'i4', 'i2': 'i4'}.get(j, j), s)
    for n in ('min', 'max'):
        number[n] = draw(settings([n]))[n]
    given.update(number)
    return dict(given=given, level=draw(st.sampled_from([None, 500, '850'])), out=draw(st.sampled_from(['out', 'new', 'new/sub/', None])), tables=(draw(st.sampled_from([None, 'cli'])), draw(st.sampled_from([None, 'file', '{WORLD}/var', '']))),
                edition=draw(st.sampled_from([1, 2])), one=draw(st.sampled_from([True, False])))


def run_check(case, rec):
    c10.quick_progress()
    given = case['given']
    want = {n: chosen(given, n) for n in SETTINGS}
    dates = [20200103, 20200104] if want['date'] is not None else [20200104]
    times = [0, 1200] if want['time'] is not None else [1200]
    members = [0, 1, 2] if want['member'] is not None else [1]
    levels = [500, 850] if case['level'] else [500]
    msgs, code = [], {}
    for d in dates:
        for t in times:
            for m in members:
                for lv in levels:
                    for s in STEPS:
                        v = 100.0 + len(msgs)
                        code[d, t, m, lv, s] = v
                        msgs.append(dict(grid=GRID, values=[v] * 9, end=s, number=m, date=d, time=t, level=lv, shortName='t', edition=1))
    with world.World() as w:
        world.write_grib(w.p('in.grb'), [msgs[i] for i in np.random.default_rng(len(msgs)).permutation(len(msgs))])
        maps = w.target(LAT, LON)
        for f in ('cli', 'file', 'var'):
            os.makedirs(w.p(f))
        interp = {'@intertableDir': case['tables'][1]} if case['tables'][1] is not None else {}
        c = w.command('c.json', maps, 'grib_nearest', 't', parameter=dict(section(given, P), **({'@level': case['level']} if case['level'] else {})), outmaps=section(given, O), interpolation=interp)
        before = set(os.listdir(w.dir))
        out = w.p(case['out']) if case['out'] else w.dir
        r = w.run('-c', c, '-i', w.p('in.grb'), '-B', *(['-o', out] if case['out'] else []), *args(given), *(['-N', 'cli'] if case['tables'][0] else []))
        expect(r.exc is None and r.status == 0, lambda: f'the run failed: {r}')
        steps = [s for s in STEPS if s >= (want['start'] or 0) and s <= (want['end'] if want['end'] is not None else 99)]
        key = (want['date'] or 20200104, want['time'] if want['time'] is not None else 1200, want['member'] if want['member'] is not None else 1, int(case['level'] or 500))
        values = [code[key + (s,)] for s in steps]
        prefix = want['prefix'] if want['prefix'] != '2t' else 't'
        files = sorted(set(os.listdir(out)) - before - {'new', 'out'} - {os.path.basename(x) for x in os.listdir(out) if x.endswith('.aux.xml')})
        if want['format'] == 'pcraster':
            names = [name_8_3(prefix, want['fmap'] + i * want['ext']) for i in range(len(steps))]
            expect(files == sorted(names), lambda: f'files {files} in place of {sorted(names)}')
            for n, v in zip(names, values):
                got = world.read_pcr(os.path.join(out, n))[0]
                expect((got == v).all(), lambda: f'{n} holds {got.tolist()} in place of {v}')
        else:
            expect(files == [f'{prefix}_None.nc'], lambda: f'files {files}')
            nc = world.read_nc(os.path.join(out, files[0]), prefix)
            expect(nc['dtype'] == (want['value'] or 'f8'), lambda: f'format of values {nc["dtype"]} in place of {want["value"]}')
            scale, offset = float(want['scale']), float(want['offset'])
            expect(np.isclose(float(nc['attrs'].get('scale_factor', 1)), scale) and np.isclose(float(nc['attrs'].get('add_offset', 0)), offset), lambda: f'scale and offset are {nc["attrs"]} in place of {scale} and {offset}')
            limits = [float(want[x]) if want[x] is not None else d for x, d in (('min', -np.inf), ('max', np.inf))]
            expect(nc['values'].shape == (len(steps), 2, 2), lambda: f'shape {nc["values"].shape} for {steps}')
            step = scale if (want['value'] or 'f8')[0] == 'i' else scale * 1e-5
            for v, got in zip(values, nc['values']):
                edge = any(abs(v - x) <= step for x in limits)
                ok = np.isnan(got).all() if not limits[0] <= v <= limits[1] else (np.abs(got - v) <= step).all()
                expect(ok or edge, lambda: f'values {got.tolist()} in place of {v} with limits {limits}')
            unit = {'s': 1, 'm': 60, 'h': 3600, '3h': 3 * 3600, '6h': 6 * 3600, '12h': 12 * 3600, 'D': 86400}.get(want['units'], 3600)
            word = nc['time_units'].split()[0]
            base = {'seconds': 1, 'minutes': 60, 'hours': 3600, 'days': 86400, '3h': 3 * 3600}.get(word)
            if base:
                expect(np.allclose(nc['time'] * base, np.array(steps) * 3600), lambda: f'steps {nc["time"]} {nc["time_units"]} for {steps}')
                if unit in (1, 60, 3600, 86400) and want['units']:
                    expect(base == unit, lambda: f'unit of steps {nc["time_units"]} for {want["units"]}')
        used = case['tables'][0] or {'{WORLD}/var': 'var', '': None}.get(case['tables'][1], case['tables'][1])
        for f in ('cli', 'file', 'var', 'tables'):
            n = [x for x in os.listdir(w.p(f)) if x.endswith(('.npy', '.gz'))]
            expect(bool(n) == (f == (used or 'tables')), lambda: f'tables in folder {f}: {n}, expected in {used or "the default one"}')
    n = sum(c is not None and j not in (None, '') and c != j for c, _, j, _ in given.values())
    rec.label(want['format'], f'{min(n, 4)} given both ways', *[f'{x} given' for x in given if given[x][0] is not None])
    rec.hit(n > 0)


# ------------------------------------------------------------------ path variables
NAMES = ['MAPS', 'EUROPE_MAPS', 'DEM', 'a', '_x1', 'Dir2', 'LAT', 'cdd', 'VeryLongVariableName_0', 'MAPS2', 'EUROPE']
PLACES = ['clone', 'lat', 'lon', 'dem', 'cdd', 'tables', 'geos']


@st.composite
def paths_case(draw):
    defined = draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=6))
    values = {n: draw(st.sampled_from(['d1', 'd1/d2', 'w s', 'x=y', 'd-1', 'D1', 'é'])) for n in defined}
    uses = {}
    for p in PLACES:
        uses[p] = draw(st.lists(st.one_of(st.sampled_from(defined), st.sampled_from(defined), st.sampled_from(defined), st.sampled_from(defined), st.sampled_from(['lit', 'q.r'])), max_size=3)) if draw(st.booleans()) else []
    undefined = draw(st.sampled_from([[], [], ['clone'], ['lat'], ['lon'], ['dem'], ['cdd'], ['tables'], ['geos'], ['lat', 'clone']]))
    return dict(values=values, uses=uses, files=draw(st.integers(1, 3)), undefined=undefined, absent=draw(st.sampled_from([n for n in NAMES if n not in defined])), glue=draw(st.sampled_from(['/', '', '_'])), dem=draw(st.booleans()),
                comments=draw(st.booleans()), abspath=draw(st.booleans()))


def paths_check(case, rec):
    from pyg2p.main.context import ExecutionContext
    from pyg2p.exceptions import ApplicationException
    values, glue = case['values'], case['glue']
    with world.World() as w:
        confs = [[] for _ in range(case['files'])]
        for i, (n, v) in enumerate(values.items()):
            confs[i % len(confs)].append(f'{n}={v}')
        for i, lines in enumerate(confs):
            if case['comments']:
                lines = ['# MAPS=wrong', ''] + lines + ['', f'#{NAMES[0]}=/wrong']
            with open(os.path.join(w.conf, f'my{i}.conf'), 'w') as f:
                f.write('\n'.join(lines) + '\n')

        def build(place, leaf):
            """Text in the command file and the path it stands for"""
            parts = [('{%s}' % u, values[u]) if u in values else (u, u) for u in case['uses'][place]]
            text, real = glue.join(a for a, _ in parts), glue.join(b for _, b in parts)
            if place in case['undefined']:
                text, real = text + '{%s}' % case['absent'], None
            head = w.dir + '/' if case['abspath'] else ''
            text = head + text + '/' + leaf if text else head + leaf
            if real is not None:
                real = head + real + '/' + leaf if real else head + leaf
            return text, real

        leaf = dict(clone='clone.map', lat='lat.map', lon='long.map', dem='dem.map', cdd='cdd.txt', tables='tb', geos='ge')
        T = {p: build(p, leaf[p]) for p in PLACES}
        for p, (t, real) in T.items():
            if real:
                os.makedirs(os.path.dirname(real) or '.', exist_ok=True)
                if p in ('tables', 'geos'):
                    os.makedirs(real, exist_ok=True)
                else:
                    open(real, 'w').close()
        open('in.grb', 'w').close()
        par = {'@correctionFormula': 'p', '@gem': 'z', '@demMap': T['dem'][0]} if case['dem'] else {}
        c = w.command('c.json', dict(clone=T['clone'][0], lat=T['lat'][0], lon=T['lon'][0]), 'cdd', parameter=par, interpolation={'@cdd_map': T['cdd'][0], '@intertableDir': T['tables'][0], '@geopotentialDir': T['geos'][0]})
        missing = [p for p in case['undefined'] if p != 'dem' or case['dem']]
        try:
            ctx = ExecutionContext(['-c', c, '-i', 'in.grb', '-o', 'fresh'])
        except ApplicationException as e:
            expect(missing, lambda: f'all variables are defined ({values}) but: {e}')
            expect(case['absent'] in str(e), lambda: f'the error does not name {case["absent"]}: {e}')
            r = w.run('-c', c, '-i', 'in.grb', '-o', 'fresh')
            expect(r.exc is None and r.status == 1 and any(case['absent'] in m for _, m in r.log), lambda: f'undefined variable {case["absent"]}: {r}')
            expect(not os.path.exists('fresh'), lambda: 'the output folder was created')
            rec.label('undefined in ' + missing[0])
            rec.hit()
            return
        expect(not missing, lambda: f'{case["absent"]} is not defined but no error')
        got = dict(clone=ctx.get('outMaps.clone'), lat=ctx.get('interpolation.latMap'), lon=ctx.get('interpolation.lonMap'), dem=ctx.get('correction.demMap') if case['dem'] else T['dem'][1], cdd=ctx.get('interpolation.cdd_map'),
                   tables=ctx.get('interpolation.dirs')['user'], geos=ctx.get('geopotential.dirs')['user'])
        for p in PLACES:
            expect(got[p] == T[p][1], lambda: f'{p}: {T[p][0]!r} became {got[p]!r} in place of {T[p][1]!r} with {values}')
    used = {u for p in PLACES for u in case['uses'][p] if u in values}
    rec.label(f'{min(len(used), 3)} variables')
    rec.hit(used)


# ------------------------------------------------------------------ rejected requests
FAULTS = ['no input option', 'input missing', 'input is a folder', 'second input missing', 'lat missing', 'lon missing', 'clone missing', 'dem missing', 'mode', 'start after end', 'level', 'correction incomplete', 'parameter',
          'conversion', 'command file missing', 'command file not JSON', 'no command file', 'undefined variable', 'unknown option', 'bad choice', 'not a number', 'section missing']


@st.composite
def reject_case(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return dict(faults=sorted(draw(st.permutations(FAULTS))[:n]) if draw(st.sampled_from([True, True, True, True, False])) else [], fmt=draw(st.sampled_from(['pcraster', 'netcdf'])), out=draw(st.sampled_from(['out', 'new', None])),
                level=draw(st.sampled_from(['abc', '5x', '-', '1.5', 'surface', ' '])), bad=draw(st.sampled_from(['nearestt', 'bilinear2', 'NEAREST', 'grib_nearest ', 'spline', 'grib', ''])),
                span=draw(st.sampled_from([(12, 6), (6, 0), (24, 12), (13, 12)])), span_cli=draw(st.sampled_from(['cli', 'file', 'start cli', 'end cli', 'override'])), partial=draw(st.integers(1, 6)), create=draw(st.booleans()),
                choice=draw(st.sampled_from([['-T', '600'], ['-F', 'png'], ['-l', 'LOUD']])), nan=draw(st.sampled_from([['-s', 'x'], ['-e', '1.5'], ['-m', 'one'], ['-f', '1a'], ['-x', 'y'], ['-D', '2020-01-01']])),
                section=draw(st.sampled_from(['OutMaps', 'Parameter', 'Interpolation', '@shortName', '@cloneMap', '@latMap', '@lonMap'])), notjson=draw(st.sampled_from(['', '{', 'x', '{"Execution": ', '[1, 2'])))


def snapshot(folder):
    d = {}
    for a, dirs, files in os.walk(folder):
        for f in dirs:
            d[os.path.join(a, f)] = None
        for f in files:
            with open(os.path.join(a, f), 'rb') as h:
                d[os.path.join(a, f)] = h.read()
    return d


def reject_check(case, rec):
    c10.quick_progress()
    faults = case['faults']
    with world.World() as w:
        world.write_grib(w.p('in.grb'), [dict(grid=GRID, values=[280.0] * 9, end=s) for s in (0, 6, 12)] + [dict(grid=GRID, values=[1000.0] * 9, end=0, shortName='z')])
        maps = w.target(LAT, LON)
        dem = world.write_pcr(w.p('dem.map'), np.full((2, 2), 10.0))
        opts = ['-i', w.p('in.grb')]
        par = {'@correctionFormula': 'p+gem+dem', '@gem': 'z', '@demMap': dem} if 'dem missing' in faults or not faults else {}
        if 'correction incomplete' in faults:
            full = {'@correctionFormula': 'p+gem+dem', '@gem': 'z', '@demMap': dem}
            par = {k: v for i, (k, v) in enumerate(full.items()) if case['partial'] >> i & 1}
        if 'dem missing' in faults:
            par['@demMap'] = w.p('nodem.map')
            if 'correction incomplete' not in faults:
                par = dict(par, **{'@correctionFormula': 'p+gem+dem', '@gem': 'z'})
        if 'no input option' in faults:
            opts = []
        elif 'input missing' in faults:
            opts = ['-i', w.p('nothing.grb')]
        elif 'input is a folder' in faults:
            opts = ['-i', w.dir]
        if 'second input missing' in faults:
            opts += ['-I', w.p('nothing2.grb')]
        for k in ('lat', 'lon', 'clone'):
            if f'{k} missing' in faults:
                maps[k] = w.p(f'no{k}.map')
        if 'undefined variable' in faults:
            maps['lat'] = '{NOT_DEFINED}/lat.map'
        a, b = case['span']
        if 'start after end' in faults:
            h = case['span_cli']
            if h in ('file', 'start cli', 'end cli'):
                if h != 'start cli':
                    par['@tstart'] = a
                if h != 'end cli':
                    par['@tend'] = b
            if h == 'override':
                par.update({'@tstart': b, '@tend': a})
            if h in ('cli', 'start cli', 'override'):
                opts += ['-s', str(a)]
            if h in ('cli', 'end cli', 'override'):
                opts += ['-e', str(b)]
        if 'level' in faults:
            par['@level'] = case['level']
        if 'conversion' in faults:
            par['@applyConversion'] = 'not_there'
        mode = case['bad'] if 'mode' in faults else 'grib_nearest'
        c = w.command('c.json', maps, mode, shortName='nope' if 'parameter' in faults else '2t', parameter=par, outmaps={'@namePrefix': 'o', '@format': case['fmt']})
        if 'section missing' in faults:
            d = json.load(open(c))
            e = d['Execution']
            s = case['section']
            {'OutMaps': lambda: e.pop(s), 'Parameter': lambda: e.pop(s), 'Interpolation': lambda: e['OutMaps'].pop(s), '@shortName': lambda: e['Parameter'].pop(s), '@cloneMap': lambda: e['OutMaps'].pop(s),
             '@latMap': lambda: e['OutMaps']['Interpolation'].pop(s), '@lonMap': lambda: e['OutMaps']['Interpolation'].pop(s)}[s]()
            json.dump(d, open(c, 'w'))
        if 'command file not JSON' in faults:
            with open(c, 'w') as f:
                f.write(case['notjson'])
        if 'command file missing' in faults:
            os.remove(c)
        opts = (['-c', c] if 'no command file' not in faults else []) + opts
        if 'unknown option' in faults:
            opts += ['--frobnicate']
        if 'bad choice' in faults:
            opts += case['choice']
        if 'not a number' in faults:
            opts += case['nan']
        if case['out']:
            opts += ['-o', w.p(case['out'])]
        if case['create'] or not faults:
            opts += ['-B']
        before = snapshot(w.dir), snapshot(w.conf)
        r = w.run(*opts)
        after = snapshot(w.dir), snapshot(w.conf)
        if not faults:
            expect(r.exc is None and r.status == 0, lambda: f'a valid request failed: {r}')
            rec.label('valid')
            return
        expect(r.exc is None and r.status == 1, lambda: f'request with {faults}: {r}')
        expect(any(level == 'ERROR' for level, _ in r.log), lambda: f'no error logged for {faults}')
        expect(after[0] == before[0], lambda: f'request with {faults} changed {[k for k in set(after[0]) | set(before[0]) if after[0].get(k) != before[0].get(k) or (k in after[0]) != (k in before[0])]}')
        for k, v in before[1].items():
            expect(after[1].get(k) == v, lambda: f'request with {faults} changed {k}')
    rec.label(*faults)
    rec.hit()


CHECK = Check(
    'C16', [Sub('effective', effective_case, effective_check, 2400, 80000, rule='requests with every setting given on the command line, in the command file, both or neither (empty values too); non-trivial: some setting given with different values both ways'),
            Sub('runs', run_case, run_check, 1200, 40000, rule='whole runs on a file with members, dates, times, levels and steps, observing values, names, format, attributes and table folders; non-trivial: as above'),
            Sub('paths', paths_case, paths_check, 1200, 40000, rule='command files with variables of generated .conf files in all paths; non-trivial: some variable used'),
            Sub('rejected', reject_case, reject_check, 1600, 50000, rule='requests with one to three faults (and none); non-trivial: some fault')],
    rule='a table of documented settings gives the value to be effective; folders are compared before and after rejected requests',
    assumptions=['empty values on the command line are not generated', 'values of variables without braces'], quick_s=60)
