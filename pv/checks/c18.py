"""C18 the programming interface gives what the command line gives."""
import copy
import os
import pathlib
import shutil

import numpy as np
from hypothesis import strategies as st

from .. import request, world
from ..engine import Check, Sub, expect, fail
from . import c08, c10

MODES = ('grib_nearest', 'nearest', 'grib_invdist', 'invdist', 'bilinear', 'triangulation', 'bilinear_delaunay', 'adw', 'cdd')


# ------------------------------------------------------------------ the in-memory interface
@st.composite
def same_case(draw):
    c = draw(request.case_(modes=MODES, generic=False, min_side=4))
    c.update(reuse=draw(st.sampled_from([None, None, 'execute twice', 'same settings', 'other first'])), first=draw(st.sampled_from(['api', 'cli'])), shared=draw(st.booleans()), variables=draw(st.booleans()), geo_dir=draw(st.booleans()), parallel=draw(st.sampled_from([False, False, True])),
             clone=draw(st.sampled_from(['as is', 'as is', 'nan', 'whole numbers'])), nothing=draw(st.integers(0, 9)) == 7, as_path=draw(st.booleans()), number_where=draw(st.booleans()), outputs=draw(st.booleans()),
             cdd=[draw(st.sampled_from(c08.MODES)), draw(st.sampled_from([300, 900]))], broadcasting=draw(st.sampled_from([False, False, True])), splits=draw(st.sampled_from([None, None, 2])))
    return c


def api_run(d, times=1):
    """(maps, problem): the maps as [(end step, array, no-data value)]."""
    from pyg2p.exceptions import ApplicationException
    from pyg2p.main.api import ApiContext, Pyg2pApi
    with world.collected_log():
        try:
            api = Pyg2pApi(ApiContext(d))
            res = []
            for _ in range(times):
                out = api.execute()
                expect(api.values is out or [k for k in api.values] == [k for k in out], 'the maps are not in values')
                res.append([(int(k.end_step), np.array(v), api.mv) for k, v in out.items()])
        except ApplicationException as e:
            return None, f'{type(e).__name__} {e}'
    for r in res[1:]:
        expect(len(r) == len(res[0]) and all(a[0] == b[0] and np.allclose(a[1], b[1], rtol=1e-9, atol=1e-9, equal_nan=True) for a, b in zip(r, res[0])), lambda: f'executed again: steps {[x[0] for x in r]}, first {[x[0] for x in res[0]]}, or other values')
    return res[-1], None


def same_check(case, rec):
    c10.quick_progress()
    with world.World() as w:
        q = request.Request(w, case)
        if case['mode'] == 'cdd':
            cd = world.write_pcr(w.p('cdd.map'), np.full(q.lat.shape, float(case['cdd'][1])))
            q.interp.update({'@cdd_map': cd, '@cdd_mode': case['cdd'][0] if case['cdd'][0] != 'NewEtAl' else 'Hofstra'})
        if case['mode'] in ('adw', 'cdd'):
            if case['broadcasting']:
                q.interp['@use_broadcasting'] = True
            if case['splits']:
                q.interp['@num_of_splits'] = case['splits']
        if case['fmt'] == 'netcdf' and case['clone'] != 'as is':
            # other ways to write a clone
            shape = q.lat.shape
            m = np.where(q.cl, np.nan if case['clone'] == 'nan' else -99, 1.0)
            q.maps['clone'] = world.write_nc_map(w.p('clone2.nc'), m, np.arange(shape[0])[::-1] + 1.0, np.arange(shape[1]) + 1.0, fill=np.nan if case['clone'] == 'nan' else -99)
        for r in q.register():
            expect(r.status == 0, lambda: f'adding a geopotential failed: {r}')
        more, api_more = [], {}
        if q.gems and case['geo_dir']:
            os.makedirs(w.p('geo2'))
            for f in os.listdir(w.geos):
                shutil.move(os.path.join(w.geos, f), w.p('geo2', f))
            more, api_more = ['-G', w.p('geo2')], {'geopotentialDir': w.p('geo2')}
        if case['variables']:
            q.maps = {k: v.replace(w.dir, '{WORLD}') for k, v in q.maps.items()}
            for k in ('@demMap',):
                if k in q.par:
                    q.par[k] = q.par[k].replace(w.dir, '{WORLD}')
            if '@cdd_map' in q.interp:
                q.interp['@cdd_map'] = q.interp['@cdd_map'].replace(w.dir, '{WORLD}')
        if case['nothing']:
            q.options = [x for kv in zip(q.options[::2], q.options[1::2]) if kv[0] != '-D' for x in kv] + ['-D', 20300101]
            q.par.pop('@dataDate', None)
        d = q.api()
        tables = w.tables if case['shared'] else w.p('tables2')
        if not case['shared']:
            os.makedirs(tables)
            api_more['intertableDir'] = tables
        d.update(api_more)
        d['interpolationParallel'] = case['parallel'] and case['mode'] not in ('grib_nearest', 'grib_invdist')
        if case['as_path']:
            d['inputFile'] = pathlib.Path(d['inputFile'])
        if case['number_where'] and 'perturbationNumber' in d:
            d['Parameter']['perturbationNumber'] = d.pop('perturbationNumber')
        if case['outputs']:
            d['fmap'], d['ext'], d['namePrefix'], d['OutMaps']['format'] = 3, 2, 'zz', 'netcdf'
        keep = copy.deepcopy(d)

        def cli():
            r = w.run(*q.argv(w.out), *more)
            expect(r.exc is None, lambda: f'the run raised {r}')
            return r

        def memory():
            if case['reuse'] == 'other first':
                e = copy.deepcopy(d)
                e['OutMaps']['Interpolation'] = {**{k: v for k, v in e['OutMaps']['Interpolation'].items() if k.endswith('Map')}, 'mode': 'nearest'}
                e['Parameter'].pop('applyConversion', None)
                e.pop('Aggregation', None)
                api_run(e)
            r = api_run(d, 2 if case['reuse'] == 'execute twice' else 1)
            expect(d == keep, lambda: f'the settings were changed: {d}, given {keep}')
            if case['reuse'] == 'same settings':
                r2 = api_run(d)
                expect((r[0] is None) == (r2[0] is None), lambda: f'with the same settings again: {r2[1]}, first {r[1]}')
            return r

        if case['first'] == 'api':
            (got, problem), r = memory(), cli()
        else:
            r = cli()
            got, problem = memory()
        have = request.written(w, case['fmt'], w.out)
        if r.status != 0 or not have:
            # a file without steps cannot be written
            expect(got is None or got == [] and (r.status == 0 or case['fmt'] == 'netcdf'), lambda: f'the run {r} wrote {len(have)} maps, the interface returned {len(got)}')
            rec.label('both fail' if r.status else 'nothing to write')
            rec.hit(r.status == 0)
            return
        expect(got is not None, lambda: f'the interface failed: {problem}, the run wrote {len(have)} maps')
        expect(len(got) == len(have), lambda: f'the interface returned steps {[x[0] for x in got]}, the run wrote {len(have)} maps {[t for t, _ in have]}')
        steps = [x[0] for x in got]
        expect(steps == sorted(set(steps)), lambda: f'steps {steps} are not in order')
        for (step, v, mv), (t, x) in zip(got, have):
            expect(t is None or t == step, lambda: f'steps {steps}, the run wrote {[t for t, _ in have]}')
            expect(v.shape == x.shape, lambda: f'shape {v.shape}, the run wrote {x.shape}')
            v = np.asarray(np.ma.filled(v, mv), float)
            miss = np.isnan(v) if np.isnan(mv) else v == mv
            if case['fmt'] == 'pcraster':
                v = v.astype(np.float32).astype(float)
            # a table as computed and as stored may differ in the last digits
            bad = (miss != np.isnan(x)) | ~miss & (np.abs(v - np.nan_to_num(x)) > (2e-7 if case['fmt'] == 'pcraster' else 1e-9) * max(1.0, np.abs(v[~miss]).max(initial=0)))
            if bad.any():
                i = tuple(int(k) for k in np.argwhere(bad)[0])
                fail(f'step {step}, cell {i}: the interface returned {v[i]!r} (no-data {mv!r}), the run wrote {x[i]!r}')
    rec.label(case['mode'], case['fmt'], f'kind {case["kind"]}', f'{min(len(got), 4)} maps', case['reuse'] or 'once', *(['two resolutions'] if case['two'] else []), *(['corrected'] if case['corr'] else []), *(['converted'] if case['conv'] else []),
              *(['netCDF clone'] if q.maps['clone'].endswith('.nc') else []), *(['missing'] if any(np.isnan(x).any() for _, x in have) else []))
    rec.hit(any((~np.isnan(x)).any() for _, x in have))


# ------------------------------------------------------------------ command builder
OPTIONS = {'cmdpath': ('-c', '--commandsFile'), 'inputfile': ('-i', '--inputFile'), 'second_input_file': ('-I', '--inputFile2'), 'eps': ('-m', '--perturbationNumber'), 'tend': ('-e', '--end'), 'tstart': ('-s', '--start'),
           'datatime': ('-T', '--dataTime'), 'datadate': ('-D', '--dataDate'), 'ext': ('-x', '--ext'), 'fmap': ('-f', '--fmap'), 'outdir': ('-o', '--outDir'), 'nameprefix': ('-n', '--namePrefix'), 'scaleFactor': ('-S', '--scaleFactor'),
           'offset': ('-O', '--offset'), 'validMax': ('-vM', '--validMax'), 'validMin': ('-vm', '--validMin'), 'valueFormat': ('-vf', '--valueFormat'), 'log_level': ('-l', '--loggerLevel'), 'out_format': ('-F', '--format'),
           'outputStepUnits': ('-U', '--outputStepUnits'), 'intertable_dir': ('-N', '--intertableDir'), 'geopotential_dir': ('-G', '--geopotentialDir')}
FLAGS = {'create_intertable': ('-B', '--createIntertable'), 'parallel': ('-X', '--interpolationParallel')}
KEYS = {'inputfile': 'input.file', 'second_input_file': 'input.file2', 'eps': 'parameter.perturbationNumber', 'tend': 'parameter.tend', 'tstart': 'parameter.tstart', 'datatime': 'parameter.dataTime', 'datadate': 'parameter.dataDate',
        'ext': 'outMaps.ext', 'fmap': 'outMaps.fmap', 'outdir': 'outMaps.outDir', 'nameprefix': 'outMaps.namePrefix', 'scaleFactor': 'outMaps.scaleFactor', 'offset': 'outMaps.offset', 'validMax': 'outMaps.validMax',
        'validMin': 'outMaps.validMin', 'valueFormat': 'outMaps.valueFormat', 'log_level': 'logger.level', 'out_format': 'outMaps.format', 'outputStepUnits': 'outMaps.outputStepUnits', 'intertable_dir': 'interpolation.dir',
        'geopotential_dir': 'geopotential.dir', 'create_intertable': 'interpolation.create', 'parallel': 'interpolation.parallel'}
# settings without a setter exist only in strings
NO_SETTER = ('geopotential_dir',)
WORD = st.text('abcXYZ019_.=+,:;@%{}~^#!?&$-/\'', min_size=1, max_size=8).filter(lambda s: not s.startswith(('-', "'")))
NUMBER = st.sampled_from(['0', '1', '-5', '2.5', '-0.25', '-.5', '1e5', '-1e5', '-273.15', '0.1', '-inf', '100'])
INT = st.sampled_from(['0', '1', '6', '24', '-3', '132', '12'])


def value_of(name):
    if name in ('inputfile', 'second_input_file', 'cmdpath'):
        return st.integers(0, 2).map(lambda i: f'<{name}{i}>')
    if name in ('eps', 'ext', 'fmap', 'tstart', 'tend', 'datadate'):
        return INT
    if name == 'datatime':
        return st.sampled_from(['0', '1200', '600'])
    if name in ('scaleFactor', 'offset', 'validMax', 'validMin'):
        return NUMBER
    if name == 'log_level':
        return st.sampled_from(['ERROR', 'DEBUG', 'INFO', 'WARNING', 'LOUD'])
    if name == 'out_format':
        return st.sampled_from(['netcdf', 'pcraster', 'tiff'])
    if name == 'outdir':
        return st.sampled_from(['<out>', '<out>/sub/', '<out>/a=b', './rel', '<out>/-x', 'rel2'])
    if name in ('intertable_dir', 'geopotential_dir'):
        return st.sampled_from(['<dir>', '<dir>/x=1', './t', 't,u'])
    return WORD


@st.composite
def option(draw, setter=False):
    name = draw(st.sampled_from([k for k in OPTIONS if not setter or k not in NO_SETTER] + list(FLAGS) * 3))
    return [name, True if name in FLAGS else draw(value_of(name))]


@st.composite
def builder_case(draw):
    builders = []
    for _ in range(draw(st.integers(1, 2))):
        start = draw(st.sampled_from([None, None, 'string', 'string', 'template']))
        text = []
        if start:
            seen = set()
            for n, v in draw(st.lists(option(), max_size=8)) + [['cmdpath', '<cmdpath0>'], ['inputfile', '<inputfile1>']] * draw(st.integers(0, 1)):
                if n not in seen:
                    seen.add(n)
                    text.append([n, v, draw(st.sampled_from(['short', 'short', 'long', 'short=', 'long=']))])
            text = draw(st.permutations(text))
        ops = [[n, v, draw(st.sampled_from(['str', 'native']))] for n, v in draw(st.lists(option(True), max_size=10))]
        base = [['cmdpath', '<cmdpath0>', 'str'], ['inputfile', '<inputfile0>', 'native']]
        at = draw(st.integers(0, len(ops)))
        if draw(st.integers(0, 9)) != 5:
            ops = ops[:at] + (base if draw(st.booleans()) else base[::-1]) + ops[at:]
        builders.append(dict(start=start, text=text, ops=ops, pieces=draw(st.sampled_from([' ', ' ', '  ', ' \t'])), head=draw(st.sampled_from(['', '', 'pyg2p ', 'pyg2p.py '])), log_level=draw(st.booleans())))
    return dict(builders=builders, interleave=draw(st.integers(0, 999)), chain=draw(st.booleans()), how=draw(st.sampled_from(['run', 'run_command', 'run_command of string'])), real=draw(st.integers(0, 4)) == 1, again=draw(st.booleans()))


def context(argv):
    """What the program understands: settings, or None if refused."""
    from pyg2p.main.context import ExecutionContext
    import contextlib, io
    with world.collected_log(), contextlib.redirect_stdout(io.StringIO()):
        try:
            c = ExecutionContext(argv)
        except (Exception, SystemExit):
            return None
    return {k: c.get(v) for k, v in KEYS.items()} | {'name': c.get('execution.name')}


def as_args(options):
    """The arguments of the command line, in a form argparse cannot misread."""
    out = []
    for n, v in options.items():
        if n in FLAGS:
            out.append(FLAGS[n][0])
        elif v.startswith('-'):
            out.append(f'{OPTIONS[n][1]}={v}')
        else:
            out += [OPTIONS[n][1], v]
    return out


def builder_check(case, rec):
    from pyg2p.main import api
    import contextlib, io
    c10.quick_progress()
    with world.World() as w:
        grid = dict(type='regular_ll', ni=4, nj=4, lat0=50.0, lon0=5.0, dlat=1.0, dlon=1.0)
        names = {'<out>': w.out, '<dir>': w.p('d')}
        for i in range(3):
            names[f'<inputfile{i}>'] = world.write_grib(w.p(f'in{i}.grb'), [dict(grid=grid, values=np.arange(16) + 100.0 * i + s, shortName='2t', end=s, number=n) for s in (6, 12, 24) for n in (0, 1, 6)] if i != 1 else
                                                        [dict(grid=grid, values=np.arange(16) + 100.0 * i + s, shortName='2t', end=s) for s in (0, 6, 12)])
            names[f'<second_input_file{i}>'] = names[f'<inputfile{i}>']
        maps = w.target(np.array([[49.5, 49.5], [48.25, 48.25]]), np.array([[5.5, 6.25], [5.5, 6.25]]))
        for i in range(3):
            names[f'<cmdpath{i}>'] = w.command(f'c=,{i}.json', maps, 'nearest', outmaps={'@namePrefix': f'o{i}'}, name=f'n{i}')

        def full(v):
            if isinstance(v, str):
                for k, x in names.items():
                    v = v.replace(k, x)
            return v

        # build them, interleaved
        cmds, expected, todo = [], [], []
        for b in case['builders']:
            opts = {}
            if b['start']:
                pieces, params = [], {}
                for i, (n, v, form) in enumerate(b['text']):
                    if n in FLAGS:
                        opts[n] = True
                        pieces.append(FLAGS[n][form.startswith('long')])
                        continue
                    v = full(v)
                    opts[n] = v
                    o = OPTIONS[n][form.startswith('long')]
                    if b['start'] == 'template' and '{' not in v and '}' not in v:
                        params[f'v{i}_'] = pathlib.Path(v) if i % 3 == 0 and v.startswith('/') and not v.endswith('/') else int(v) if i % 3 == 1 and v.isdigit() and v == str(int(v)) else v
                        v = '{v%d_}' % i
                    sep = '=' if form.endswith('=') or opts[n].startswith('-') and not request_number(opts[n]) else b['pieces']
                    pieces.append(f'{o}{sep}{v}')
                text = b['head'] + b['pieces'].join(pieces)
                c = api.command(text, **params)
            else:
                c = api.Command() if case['chain'] else api.command()
            cmds.append(c)
            expected.append(opts)
            todo.append(list(b['ops']))
        rng = np.random.default_rng(case['interleave'])
        while any(todo):
            i = int(rng.choice([k for k, t in enumerate(todo) if t]))
            n, v, form = todo[i].pop(0)
            c, set_ = cmds[i], getattr(cmds[i], f'with_{n}')
            if n in FLAGS:
                r = set_()
                expected[i][n] = True
            else:
                v = full(v)
                expected[i][n] = v
                if form == 'native':
                    v = int(v) if v.lstrip('-').isdigit() and str(int(v)) == v else pathlib.Path(v) if v.startswith('/') and not v.endswith('/') else v
                r = set_(v)
            expect(r is c, f'with_{n} does not return the command')
        ran = False
        for i, (c, opts) in enumerate(zip(cmds, expected)):
            if 'log_level' not in opts:
                opts = dict(opts, log_level='ERROR')
            want = context(as_args(opts))
            text = str(c)
            expect(str(c) == text, 'the string of the command changes')
            tokens = text.split()
            expect(tokens[0] in ('pyg2p', 'pyg2p.py'), lambda: f'command {text!r}')
            got = context(tokens[1:])
            expect(got == want, lambda: f'command {text!r} means {diff(got, want)}, the options set are {opts}')
            # the string is a command again
            got = context(str(api.command(text)).split()[1:])
            expect(got == want, lambda: f'command of {text!r} means {diff(got, want)}')
            if case['real']:
                ran = True
                results = []
                for how in ('command line', 'command', *(['command again'] if case['again'] else [])):
                    shutil.rmtree(w.out)
                    os.makedirs(w.out)
                    before = world.snapshot(w.dir)
                    with world.collected_log(), contextlib.redirect_stdout(io.StringIO()):
                        if how == 'command line':
                            r = w.run(*as_args(opts)).status
                        elif case['how'] == 'run':
                            r = c.run()
                        else:
                            r = api.run_command(c if case['how'] == 'run_command' else text)
                    after = world.snapshot(w.dir)
                    made = {}
                    for f in world.changes(before, after):
                        if after.get(f) is not None and '/rel' not in f.replace(w.dir, ''):
                            made[f] = decoded(f, after[f])
                    for f in world.changes(before, after):
                        # as it was
                        if f not in before and os.path.isfile(f):
                            os.unlink(f)
                    results.append((r, made))
                for r in results[1:]:
                    expect(r[0] == results[0][0], lambda: f'command {text!r} returned {r[0]}, the command line {results[0][0]}')
                    expect(r[1] == results[0][1], lambda: f'command {text!r} wrote {sorted(r[1])}, the command line {sorted(results[0][1])} (or other content)')
                rec.label(f'status {results[0][0]}')
            rec.label('refused' if want is None else 'accepted')
    rec.label(*{b['start'] or 'setters' for b in case['builders']}, *(['run'] if ran else []), *(['interleaved'] if len(cmds) > 1 else []))
    rec.hit(want is not None and sum(len(o) for o in expected) > 4)


def request_number(v):
    import re
    return re.match(r'^-\d+$|^-\d*\.\d+$', v)


def diff(a, b):
    if a is None or b is None:
        return 'refused' if a is None else 'accepted, but the command line refuses it'
    return {k: (a[k], 'instead of', b[k]) for k in a if a[k] != b[k]}


def decoded(path, data):
    """The content of an output without the time of its creation."""
    if data[:3] == b'CDF' or data[1:4] == b'HDF':
        import netCDF4
        nc = netCDF4.Dataset(path)
        nc.set_auto_maskandscale(False)
        d = repr({k: (np.array(v[:]).tolist(), {a: v.getncattr(a) for a in v.ncattrs()}) for k, v in nc.variables.items()})
        nc.close()
        return d
    if data[:2] == b'\x1f\x8b':
        import gzip
        return gzip.decompress(data)
    return data


def warm():
    c08.warm()


CHECK = Check(
    'C18', [Sub('same', same_case, same_check, 1800, 60000,
                rule='whole runs by command line and by the in-memory interface with the same generated settings, all modes, in both orders and repeated; non-trivial: maps with values'),
            Sub('builder', builder_case, builder_check, 2000, 80000,
                rule='one or two commands built from strings, templates and setters in any order and interleaved, against the command line with the same options: settings understood, and status and files of real runs; non-trivial: '
                     'accepted, with more than four options')],
    rule='differential against the command line: same steps, cells and no-data; same settings, status and files',
    assumptions=['values have no spaces and do not start with quotes', 'the order of options given twice in one string is not judged'], quick_s=70, warm=warm)
