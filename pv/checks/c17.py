"""C17 exit status."""
import json
import os
import resource
import runpy
import shutil

import numpy as np
from hypothesis import strategies as st

from .. import boot, world
from ..engine import Check, Sub, expect
from . import c10

GRID = dict(type='regular_ll', ni=3, nj=3, lat0=50.0, lon0=5.0, dlat=1.0, dlon=1.0)
LON, LAT = np.meshgrid([5.0, 6.0], [50.0, 49.0])
STEPS = [6, 12, 18, 24]

EARLY = ['no input option', 'input missing', 'second input missing', 'lat missing', 'lon missing', 'clone missing', 'dem missing', 'mode', 'start after end', 'level', 'correction incomplete', 'parameter', 'conversion',
         'command file missing', 'command file not JSON', 'undefined variable', 'parameters.json broken', 'intertables.json broken', 'geopotentials.json broken', 'ftp.json broken', 'parameters.json is a list', 'parameters.json missing',
         'output folder is a file', 'unknown option']
LATE = ['no table', 'table file gone', 'tables folder missing', 'tables folder not set', 'no geopotential', 'geopotential file gone', 'aggregation of accumulated', 'lat not a map', 'lon not a map', 'clone not a map', 'dem not a map',
        'map in the way', 'clone of another size', 'names too long', 'cdd map missing']
NONE = ['other member', 'other date', 'other time', 'other level', 'parameter not in the file', 'nothing before', 'not a GRIB', 'empty GRIB']


@st.composite
def case_(draw):
    kind = draw(st.sampled_from(['ok', 'ok', 'early', 'early', 'late', 'late', 'late', 'none', 'mixed']))
    faults = {'ok': lambda: [], 'early': lambda: [draw(st.sampled_from(EARLY))], 'late': lambda: [draw(st.sampled_from(LATE))], 'none': lambda: [draw(st.sampled_from(NONE))],
              'mixed': lambda: sorted({draw(st.sampled_from(EARLY + LATE + NONE)) for _ in range(draw(st.integers(2, 3)))})}[kind]()
    return dict(faults=faults, fmt=draw(st.sampled_from(['pcraster', 'netcdf'])), mode=draw(st.sampled_from(['grib_nearest', 'grib_invdist', 'nearest', 'invdist', 'bilinear'])),
                agg=draw(st.sampled_from([None, None, ['accumulation', 6], ['average', 12], ['instantaneous', 12], ['accumulation', 12]])), start=draw(st.sampled_from([None, None, 12])), end=draw(st.sampled_from([None, 18, 24])),
                correction=draw(st.sampled_from([False, False, True])), conversion=draw(st.sampled_from([None, 'k2c'])), stored=draw(st.booleans()), api=draw(st.sampled_from([False, False, True])), edition=draw(st.sampled_from([1, 2])),
                size=draw(st.sampled_from([(3, 2), (2, 3), (1, 2), (4, 4)])), broken=draw(st.sampled_from(['{', '', 'x', '{"a": }', '{"a": 1}}'])), existing=draw(st.booleans()), new=draw(st.booleans()))


def expected_ends(case):
    end = case['end'] or 24
    if not case['agg']:
        return [s for s in STEPS if (case['start'] or 0) <= s <= end]
    kind, a = case['agg']
    start = case['start'] or (a if kind != 'instantaneous' else 0)
    if kind == 'instantaneous':
        start = start - a if start - a > 0 else start
    return list(range(start, end + 1, a))


def prepare(w, case):
    """Writes everything for a request with faults: (options, expected category)."""
    f = case['faults']
    kw = dict(grid=GRID, edition=case['edition'])
    rng = np.random.default_rng(5)
    acc = 'aggregation of accumulated' in f
    agg = case['agg']
    if acc:
        agg = ['average', 12] if case['existing'] else ['instantaneous', 12]
        kw['edition'] = 1
    msgs = [dict(kw, values=np.round(rng.uniform(250, 300, 9), 1), end=s, shortName='tp' if acc else '2t', **(dict(stepType='accum') if acc else {})) for s in ([] if case['agg'] and case['agg'][0] == 'accumulation' else [0]) + STEPS]
    if case['agg'] is None:
        msgs = [m for m in msgs if m['end']]
    world.write_grib(w.p('in.grb'), msgs)
    maps = w.target(LAT, LON)
    dem = world.write_pcr(w.p('dem.map'), np.full(LAT.shape, 10.0))
    opts, par, out = [], {}, {'@namePrefix': 'o', '@format': case['fmt']}
    mode = case['mode']
    inter = {}
    if case['correction'] or any('dem' in x or 'geopotential' in x for x in f if x != 'geopotentials.json broken'):
        par.update({'@correctionFormula': 'p+gem-dem', '@gem': 'z', '@demMap': dem})
        geo = world.write_grib(w.p('geo.grb'), [dict(kw, values=np.full(9, 100.0), end=0, shortName='z')])
        if 'no geopotential' not in f:
            r = w.run('-g', geo)
            if 'geopotential file gone' in f:
                os.remove(os.path.join(w.geos, 'geo.grb'))
    if case['conversion'] and not acc:
        par['@applyConversion'] = case['conversion']
    short = 'tp' if acc else '2t'
    if 'correction incomplete' in f:
        par['@correctionFormula'] = 'p+dem'
        par.pop('@gem', None)
    if 'dem missing' in f:
        par['@demMap'] = w.p('nothing.map')
    for k in ('lat', 'lon', 'clone'):
        if f'{k} not a map' in f:
            maps[k] = w.p(f'bad_{k}.map')
            open(maps[k], 'wb').write(b'this is not a map' * 9)
        if f'{k} missing' in f:
            maps[k] = w.p(f'no_{k}.map')
    if 'clone of another size' in f and 'clone not a map' not in f and 'clone missing' not in f:
        maps['clone'] = world.write_pcr(w.p('size.map'), np.ones(case['size']), mask=(np.arange(case['size'][0] * case['size'][1]).reshape(case['size']) == 0) if case['existing'] else None)
    if 'dem not a map' in f and 'dem missing' not in f:
        par['@demMap'] = w.p('bad_dem.map')
        open(par['@demMap'], 'wb').write(b'this is not a map' * 9)
    if 'undefined variable' in f:
        maps['clone'] = '{NOT_DEFINED}/clone.map'
    if 'mode' in f:
        mode = 'fancy'
    elif 'cdd map missing' in f:
        mode = 'cdd'
        inter = {'@cdd_map': w.p('nothing.txt'), '@cdd_mode': 'Hofstra'}
    if 'names too long' in f:
        out['@namePrefix'] = 'averylongprefix'
        out['@format'] = 'pcraster'
    if 'level' in f:
        par['@level'] = 'high'
    if 'conversion' in f:
        par['@applyConversion'] = 'nope'
    if 'parameter' in f:
        short = 'nope'
    elif 'parameter not in the file' in f:
        short = 'ssrd'
        par.pop('@applyConversion', None)
    if 'other member' in f:
        opts += ['-m', '7']
    if 'other date' in f:
        opts += ['-D', '19990101']
    if 'other time' in f:
        opts += ['-T', '0']
    if 'other level' in f and 'level' not in f:
        par['@level'] = 321
    if 'not a GRIB' in f:
        open(w.p('in.grb'), 'wb').write(b'nothing to see here ' * 50)
    if 'empty GRIB' in f:
        open(w.p('in.grb'), 'wb').close()
    start, end = case['start'], case['end']
    if 'start after end' in f:
        start, end = 18, 6
    elif 'nothing before' in f:
        start, end, agg = None, 3, None
        # no message until step 3
        if 0 in [m['end'] for m in msgs]:
            world.write_grib(w.p('in.grb'), [m for m in msgs if m['end']])
    if start is not None:
        opts += ['-s', str(start)]
    if end is not None:
        opts += ['-e', str(end)]
    c = w.command('c.json', maps, mode, short, parameter=par, outmaps=out, aggregation={'@type': agg[0], '@step': agg[1]} if agg else None, interpolation=inter)
    if 'command file not JSON' in f:
        open(c, 'w').write(case['broken'])
    if 'command file missing' in f:
        os.remove(c)
    opts += ['-c', c]
    if 'no input option' not in f:
        opts += ['-i', w.p('in.grb' if 'input missing' not in f else 'nothing.grb')]
    if 'second input missing' in f:
        opts += ['-I', w.p('nothing2.grb')]
    if 'unknown option' in f:
        opts += ['--dance']
    tables = [x for x in f if x in ('no table', 'table file gone', 'tables folder missing', 'tables folder not set')]
    outdir = w.out
    if case['new']:
        outdir = w.p('new', 'sub')
    if tables:
        if 'table file gone' in tables:
            # registered by a good run
            r = w.run(*[x for x in opts if x != '--dance'], '-o', w.p('good'), '-B')
            for x in os.listdir(w.tables):
                os.remove(os.path.join(w.tables, x))
        if 'tables folder missing' in tables:
            os.makedirs(w.tables, exist_ok=True)
            shutil.rmtree(w.tables)
        if 'tables folder not set' in tables:
            w.write_conf('paths.conf', {'GEOPOTENTIALS': w.geos})
        if not set(tables) & {'no table', 'table file gone'}:
            opts += ['-B']
    else:
        if case['stored'] and not set(f) & set(EARLY):
            w.run(*opts, '-o', w.p('good'), '-B')
        opts += ['-B']
    for n in ('parameters', 'intertables', 'geopotentials', 'ftp'):
        if f'{n}.json broken' in f:
            open(os.path.join(w.conf, n + '.json'), 'w').write(case['broken'])
    if 'parameters.json is a list' in f:
        w.write_json('parameters.json', [1, 2])
    if 'parameters.json missing' in f:
        os.remove(os.path.join(w.conf, 'parameters.json'))
    if 'output folder is a file' in f:
        outdir = w.p('afile')
        open(outdir, 'w').write('x')
    if 'map in the way' in f:
        # a folder with the name of an output
        for x in ('o0000000.001', 'o_None.nc', 'o_accumulation.nc', 'o_average.nc', 'o_instantaneous.nc'):
            os.makedirs(os.path.join(outdir, x), exist_ok=True)
    opts += ['-o', outdir]
    early, late, none = [x for x in f if x in EARLY], [x for x in f if x in LATE], [x for x in f if x in NONE]
    # at GRIB level, the only thing that can be found before the late failures
    if late == ['names too long'] and not early and not none and len(expected_ends(dict(case, agg=agg, start=start, end=end))) < 2:
        # one map overwrites none
        late = ['names too long, one map']
    category = 'fail' if early else 'late' if late and not none else 'fail or none' if late else 'none' if none else 'ok'
    if late == ['names too long, one map']:
        category = 'one map'
    return opts, outdir, category, out['@format'], out['@namePrefix']


def written(folder, fmt, prefix):
    """Readable maps in the folder"""
    if not os.path.isdir(folder):
        return []
    names = sorted(x for x in os.listdir(folder) if os.path.isfile(os.path.join(folder, x)) and not x.endswith('.aux.xml'))
    if fmt == 'netcdf':
        got = []
        for n in names:
            d = world.read_nc(os.path.join(folder, n), prefix)
            got += [(int(t), v) for t, v in zip(d['time'], d['values'])]
        return got
    return [(n, world.read_pcr(os.path.join(folder, n))[0]) for n in names]


def outcome_check(case, rec):
    c10.quick_progress()
    from pyg2p.main import api
    with world.World() as w:
        opts, outdir, category, fmt, prefix = prepare(w, case)
        keep = ('out', 'new', 'good', 'tables', 'geos', 'configuration')
        before = world.snapshot(w.dir, keep), world.snapshot(w.conf)
        if case['api']:
            with world.collected_log() as h:
                try:
                    status, exc = api.run_command(api.Command(' '.join(opts))), None
                except Exception as e:
                    status, exc = None, e
            r = world.Result(status, exc, h.lines)
        else:
            r = w.run(*opts)
        what = f'{case["faults"] or "no fault"} ({fmt})'
        expect(r.exc is None, lambda: f'{what}: unhandled {r.exc!r}')
        expect(type(r.status) is int and r.status in (0, 1), lambda: f'{what}: status {r.status!r}')
        changed = world.changes(before[0], world.snapshot(w.dir, keep))
        expect(not changed, lambda: f'{what}: the run changed {changed}')
        after = world.snapshot(w.conf)
        for k, v in before[1].items():
            expect(os.path.basename(k) in ('intertables.json', 'geopotentials.json') and 'broken' not in what or after.get(k) == v, lambda: f'{what}: the run changed {k}')
        errors = [m for level, m in r.log if level == 'ERROR']
        if category == 'ok':
            expect(r.status == 0, lambda: f'{what}: {r}')
            got = written(outdir, fmt, prefix)
            ends = expected_ends(case)
            expect(len(got) == len(ends), lambda: f'{what}: status 0 with {len(got)} maps, {len(ends)} requested')
            if fmt == 'netcdf':
                expect([t for t, _ in got] == ends, lambda: f'{what}: steps {[t for t, _ in got]}, requested {ends}')
            expect(not any(np.isnan(v).any() for _, v in got), lambda: f'{what}: missing cells')
        elif category in ('none', 'one map'):
            expect(r.status == 0, lambda: f'{what}: {r}')
        elif category in ('fail', 'late'):
            expect(r.status == 1, lambda: f'{what}: status {r.status}, written: {os.listdir(outdir) if os.path.isdir(outdir) else None}')
        if r.status == 1:
            expect(errors, lambda: f'{what}: status 1 without an error in the log')
        if category in ('none', 'fail') or category == 'fail or none' and r.status == 0:
            n = [x for x in world.snapshot(outdir) if os.path.isfile(x)] if os.path.isdir(outdir) else []
            expect(not n, lambda: f'{what}: status {r.status} and written {n}')
    rec.label(category, fmt, *case['faults'], *(['through run_command'] if case['api'] else []))
    rec.hit()


# ------------------------------------------------------------------ failures of writes
@st.composite
def write_case(draw):
    kind = draw(st.sampled_from(['size', 'size', 'size', 'tables not writable', 'output not writable', 'configuration not writable', 'space']))
    return dict(kind=kind, limit=draw(st.one_of(st.integers(0, 400), st.integers(0, 12000))), fmt=draw(st.sampled_from(['pcraster', 'netcdf'])), mode=draw(st.sampled_from(['grib_nearest', 'grib_invdist', 'nearest'])),
                stored=draw(st.sampled_from([True, True, False])), rows=draw(st.sampled_from([2, 3, 20])), value=draw(st.sampled_from([None, 'f4', 'i2'])))


def write_check(case, rec):
    c10.quick_progress()
    with world.World() as w:
        rng = np.random.default_rng(3)
        world.write_grib(w.p('in.grb'), [dict(grid=GRID, values=np.round(rng.uniform(250, 300, 9), 1), end=s) for s in STEPS])
        lo, la = np.meshgrid([5.0, 6.0], np.linspace(50.0, 48.0, case['rows']))
        maps = w.target(la, lo)
        c = w.command('c.json', maps, case['mode'], outmaps={'@namePrefix': 'o', '@format': case['fmt'], **({'@valueFormat': case['value']} if case['value'] else {})})
        opts = ['-c', c, '-i', w.p('in.grb'), '-B', '-l', 'ERROR']
        r = w.run(*opts, '-o', w.p('ref'))
        expect(r.status == 0, lambda: f'the run failed: {r}')
        ref = written(w.p('ref'), case['fmt'], 'o')
        if not case['stored'] or case['kind'] == 'tables not writable':
            for x in os.listdir(w.tables):
                os.remove(os.path.join(w.tables, x))
            os.remove(os.path.join(w.conf, 'intertables.json'))
            from pyg2p.main.config import Configuration
            Configuration()
        user = case['kind'].endswith('writable')
        if user:
            # as an unprivileged user
            world.give_away(w)
            target = {'tables': w.tables, 'output': w.out, 'configuration': w.conf}[case['kind'].split()[0]]
            os.chown(target, 0, 0)
            os.chmod(target, 0o555)

        def run():
            if user:
                world.become_nobody()
                if os.access(target, os.W_OK):
                    return None
            elif case['kind'] == 'size':
                resource.setrlimit(resource.RLIMIT_FSIZE, (case['limit'], case['limit']))
            else:
                resource.setrlimit(resource.RLIMIT_NOFILE, (3 + case['limit'] % 20,) * 2)
            r = w.run(*opts, '-o', w.out)
            return r.status, repr(r.exc) if r.exc else None, [m for level, m in r.log if level == 'ERROR'][:3]

        how, res = world.forked(run)
        if how == 'died' and case['kind'] in ('size', 'space'):
            # GDAL itself may be ended by a failed write: that is no status 0
            rec.label(case['kind'], case['fmt'], 'ended by the library')
            rec.hit()
            return
        expect(how == 'ok', lambda: f'{case["kind"]} ({case["limit"]}): the run {how} {res}')
        if res is None:
            rec.label('cannot take privileges away')
            return
        status, exc, errors = res
        what = f'{case["kind"]}{" " + str(case["limit"]) if not user else ""}, {case["fmt"]}: status {status} {exc or ""} {errors}'
        if user:
            os.chmod(target, 0o755)
        if status == 0:
            try:
                got = written(w.out, case['fmt'], 'o')
            except Exception as e:
                got = repr(e)
            same = isinstance(got, list) and len(got) == len(ref) and all(a[0] == b[0] and np.array_equal(a[1], b[1], equal_nan=True) for a, b in zip(got, ref))
            expect(same, lambda: f'{what} but the maps are not all there: {got if not isinstance(got, list) else [k for k, _ in got]}, files {os.listdir(w.out)}')
        elif case['kind'] == 'tables not writable':
            expect(status == 1 and errors, lambda: what)
        if case['kind'] in ('tables not writable', 'output not writable'):
            expect(status != 0, lambda: what)
        rec.label(case['kind'], case['fmt'], 'status 0' if status == 0 else 'status 1' if status == 1 else 'exception')
        rec.hit(status != 0)


# ------------------------------------------------------------------ the program
@st.composite
def program_case(draw):
    return draw(case_())


def program_check(case, rec):
    """The exit status of the program is the one of the function."""
    c10.quick_progress()
    with world.World() as w:
        opts, outdir, category, fmt, prefix = prepare(w, case)

        def run():
            import sys
            sys.argv = ['pyg2p'] + opts
            try:
                runpy.run_path(os.path.join(boot.REPO, 'bin', 'pyg2p'), run_name='__main__')
            except SystemExit as e:
                return e.code if e.code is not None else 0
            return 0

        how, code = world.forked(run)
        expect(how == 'ok', lambda: f'{case["faults"]}: the program {how} {code}')
        want = {'ok': (0,), 'none': (0,), 'fail': (1,), 'late': (1,), 'fail or none': (0, 1), 'one map': (0,)}[category]
        expect(type(code) is int and code in want, lambda: f'{case["faults"]}: exit status {code!r}')
        rec.label(category)
        rec.hit()


def warm():
    from . import c08
    c08.warm()


CHECK = Check(
    'C17', [Sub('outcomes', case_, outcome_check, 2000, 60000, rule='requests, valid, matching no message, or with one of 40 faults or several, in both formats, as command line or Command; every case counts'),
            Sub('writes', write_case, write_check, 500, 15000, rule='valid requests in a process with a limit on file size or open files, or without the right to write in one of the folders; non-trivial: the run failed'),
            Sub('program', program_case, program_check, 250, 8000, rule='the exit status of bin/pyg2p on the same requests; every case counts')],
    rule='the category expected from the faults, maps counted by reading them back, bytes of all inputs compared before and after', assumptions=['requests without any message at a start step before available ones are not judged'], quick_s=60, warm=warm)
