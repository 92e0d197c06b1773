"""C15 altitude correction."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from .. import scene, world
from ..engine import Check, Sub, expect
from . import c10

FORMULAS = ['p+gem-dem*0.0065', 'p/gem*(10**((-0.159)*dem/1000))', 'p', '(p+gem)*2', 'where(dem>500,p,gem)', 'p-dem', 'gem*1.5', 'p*0+dem', 'p+gem']
GEMS = ['(z/9.81)*0.0065', '(10**((-0.159)*(z/9.81)/1000))', 'z', 'z/100+1', 'z*0+3']
MODES = ('grib_nearest', 'grib_nearest', 'nearest', 'grib_invdist', 'invdist', 'bilinear')
AGGS = (None, None, ['instantaneous', 6], ['average', 12], ['accumulation', 12])


@st.composite
def case_(draw):
    grid = draw(scene.regular_grid(min_side=3, max_side=4, square=True, lat0s=(50.0, 20.5, -20.0), lon0s=(5.0, -3.0, 100.0)))
    tgt = draw(scene.target(grid, max_side=3, outside=draw(st.booleans())))
    n = tgt['rows'] * tgt['cols']
    where = draw(st.sampled_from(['registered', 'registered', 'registered', 'in the file', 'in the file', 'both', 'option -G', 'in the command', 'global folder', 'none', 'other grid only', 'file gone']))
    number = draw(st.sampled_from([None, None, 3]))
    case = dict(number=number, grid=grid, tgt=tgt, mode=draw(st.sampled_from(MODES)), agg=draw(st.sampled_from(AGGS)), conv=draw(st.sampled_from([None, 'k2c', 'k2c_cut', 'aff'])),
                formula=draw(st.sampled_from(FORMULAS)), gem=draw(st.sampled_from(GEMS)), where=where, seed=draw(st.integers(0, 9999)), masked=draw(st.sampled_from([0, 0, 1])),
                zmasked=draw(st.sampled_from([0, 0, 0, 1])), short=draw(st.sampled_from(['z', 'z', 'orog'])), edition=1 if number else draw(st.sampled_from([1, 2])), zsteps=draw(st.sampled_from([[0], [0], [0, 6]])),
                dem_mask=draw(st.one_of(st.none(), st.none(), st.lists(st.booleans(), min_size=n, max_size=n))), dem_nc=draw(st.booleans()), dem_nan=draw(st.booleans()), two=draw(st.sampled_from([False, False, 'one file', 'two files'])),
                fmt=draw(st.sampled_from(['pcraster', 'netcdf'])), order=draw(st.booleans()), add_first=draw(st.booleans()), others=draw(st.booleans()), api=draw(st.sampled_from([False, False, True])))
    case['z_both'] = draw(st.booleans())
    case['count'] = draw(st.integers(1, 3))
    if where not in ('in the file', 'both', 'none'):
        # registered geopotentials are found by grid, number of values included
        case['zmasked'] = case['masked']
    if case['two']:
        case['masked'] = case['zmasked'] = 0
        if case['agg'] and case['agg'][0] in ('average', 'accumulation'):
            case['agg'] = None
        if case['short'] == 'orog':
            case['short'] = 'z'
    return case


def finer(grid):
    return dict(grid, ni=2 * grid['ni'] - 1, nj=2 * grid['nj'] - 1, dlat=grid['dlat'] / 2, dlon=grid['dlon'] / 2)


def check(case, rec):
    c10.quick_progress()
    grid, tgt, where, mode = case['grid'], case['tgt'], case['where'], case['mode']
    grids = [grid, finer(grid)] if case['two'] else [grid]
    rng = np.random.default_rng(case['seed'])

    def field(g, lo, hi, masked):
        n = g['ni'] * g['nj']
        m = np.zeros(n, bool)
        m[rng.permutation(n)[:case['count']]] = True
        return dict(grid=g, values=np.round(rng.uniform(lo, hi, n), 2), missing=m if masked else None)

    zs = [[dict(field(g, -200, 30000, case['zmasked']), shortName=case['short'], end=s, edition=case['edition']) for s in case['zsteps']] for g in grids]
    for z in zs:
        for k, m in enumerate(z):
            m['values'] = z[0]['values'] if k == 0 else z[0]['values'] + 5000
            m['missing'] = z[0]['missing']
    steps = [(6, 0), (12, 0), (18, 1), (24, 1)] if case['two'] else [(6, 0), (12, 0)]
    msgs = [dict(field(grids[i], 240, 320, case['masked']), end=s, edition=case['edition'], number=case['number']) for s, i in steps]
    inside = where in ('in the file', 'both')
    both = case['two'] and case['z_both']
    with world.World(dict(world.DEFAULT_PARAMETERS, **{s: {'@description': s, '@shortName': s, '@unit': 'm', 'Conversion': {'@function': 'x=' + case['gem'].replace('z', 'x'), '@id': 'gem', '@unit': 'm'}} for s in ('z', 'orog')})) as w:
        parts = [msgs] if case['two'] != 'two files' else [msgs[:2], msgs[2:]]
        plain, full = [], []
        for i, p in enumerate(parts):
            plain.append(world.write_grib(w.p(f'plain{i}.grb'), p))
            extra = (zs[0] + (zs[1] if both else [])) if inside and i == 0 else []
            full.append(world.write_grib(w.p(f'in{i}.grb'), extra + p if case['order'] else p + extra))
        zfile = []
        for i, z in enumerate(zs):
            other = [dict(field(grids[i], 0, 5, False), shortName='10u', end=0, edition=case['edition'])] if case['others'] else []
            zfile.append(world.write_grib(w.p(f'geo{i}.grb'), other + z))
        maps, la, lo, cm, cl = scene.make_target(w, grid, tgt)
        dem = np.round(rng.uniform(-50, 3000, la.shape))
        dm = np.zeros(la.shape, bool) if case['dem_mask'] is None else np.array(case['dem_mask'], bool).reshape(la.shape)
        if case['dem_nc']:
            d = world.write_nc_map(w.p('dem.nc'), dem, la[:, 0], lo[0], mask=dm, fill=np.nan if case['dem_nan'] else -9999.0)
        else:
            d = world.write_pcr(w.p('dem.map'), dem, mask=dm)

        # what is interpolated: the same run without correction, and the geopotentials themselves with the gem formula
        agg = {'@type': case['agg'][0], '@step': case['agg'][1]} if case['agg'] else None
        tables = w.p('own')
        os.makedirs(tables)
        par = {'@applyConversion': case['conv']} if case['conv'] else {}
        c0 = w.command('plain.json', maps, mode, parameter=par, outmaps={'@namePrefix': 'o', '@format': 'netcdf'}, aggregation=agg)
        os.makedirs(w.p('p'))
        second = lambda files: ['-I', files[1]] if len(files) > 1 else []
        number = ['-m', case['number']] if case['number'] else []
        r = w.run('-c', c0, '-i', plain[0], *second(plain), '-o', w.p('p'), '-B', '-N', tables, *number)
        if r.status != 0 and case['agg'] and r.exc is None:
            rec.label('skipped: no maps')
            return
        expect(r.exc is None and r.status == 0, lambda: f'the run without correction failed: {r}')
        P = w.maps('netcdf', out=w.p('p'))
        nc = [f for f in os.listdir(w.p('p'))][0]
        times = world.read_nc(w.p('p', nc), 'o')['time'].tolist()
        gems = []
        for i in range(len(grids)):
            c1 = w.command('z.json', dict(maps, clone=maps['clone']), mode, shortName=case['short'], parameter={'@applyConversion': 'gem', '@tstart': 0}, outmaps={'@namePrefix': 'o', '@format': 'netcdf'})
            os.makedirs(w.p(f'z{i}'))
            r = w.run('-c', c1, '-i', zfile[i], '-o', w.p(f'z{i}'), '-B', '-N', tables)
            expect(r.exc is None and r.status == 0, lambda: f'interpolating the geopotential failed: {r}')
            gems.append(w.maps('netcdf', out=w.p(f'z{i}'))[0])
        if inside and len(gems) > 1 and not both:
            gems[1] = gems[0]       # the geopotential of the file

        # the registry
        shutil.rmtree(w.conf + '/none', ignore_errors=True)
        gdir = w.p('gdir')
        os.makedirs(gdir)
        opts, inter = [], {}
        use = {'other grid only': []}.get(where, list(range(len(grids))))
        if where in ('registered', 'option -G', 'in the command', 'global folder', 'file gone', 'both'):
            src = zfile
            if where in ('both', 'option -G', 'in the command'):
                src = []
                for i, z in enumerate(zs):
                    src.append(world.write_grib(w.p(f'fake{i}.grb'), [dict(m, values=m['values'] + 12345) for m in z]))
            for i in use if case['add_first'] else use[::-1]:
                r = w.run('-g', src[i])
                expect(r.exc is None and r.status == 0, lambda: f'adding the geopotential failed: {r}')
            for f in os.listdir(w.geos):
                i = int(f[-5]) if f[-5].isdigit() else 0
                if where in ('option -G', 'in the command'):
                    # the file of the additional folder counts
                    shutil.copyfile(zfile[i], os.path.join(gdir, f))
                elif where == 'global folder':
                    os.makedirs(w.p('globalgeo'), exist_ok=True)
                    shutil.move(os.path.join(w.geos, f), w.p('globalgeo', f))
                elif where == 'file gone':
                    os.remove(os.path.join(w.geos, f))
            if where == 'option -G':
                opts = ['-G', gdir]
            elif where == 'in the command':
                inter = {'@geopotentialDir': gdir}
            elif where == 'global folder':
                os.makedirs(w.p('configuration', 'global'))
                with open(w.p('configuration', 'global', 'global_conf.json'), 'w') as f:
                    f.write('{"geopotentials": "%s"}' % w.p('globalgeo'))
        elif where == 'other grid only':
            o = dict(grid, ni=grid['ni'] + 1)
            r = w.run('-g', world.write_grib(w.p('other.grb'), [dict(field(o, 0, 100, False), shortName='z', edition=1)]))
            expect(r.exc is None and r.status == 0, lambda: f'adding the geopotential failed: {r}')

        par = dict(par, **{'@correctionFormula': case['formula'], '@gem': case['gem'], '@demMap': d})
        c = w.command('c.json', maps, mode, parameter=par, outmaps={'@namePrefix': 'o', '@format': case['fmt']}, aggregation=agg, interpolation=inter)
        api = case['api'] and not maps['clone'].endswith('.nc')
        before = sorted(os.listdir(w.geos))
        if api:
            from pyg2p.main.api import ApiContext, Pyg2pApi
            from pyg2p.exceptions import ApplicationException
            strip = lambda x: {k.lstrip('@'): v for k, v in x.items()}
            D = {'inputFile': full[0], 'createIntertable': True, 'interpolationParallel': False, 'perturbationNumber': case['number'], 'Parameter': {'shortName': '2t', **strip(par)},
                 'OutMaps': {'cloneMap': maps['clone'], 'unitTime': 24, 'Interpolation': {'latMap': maps['lat'], 'lonMap': maps['lon'], 'mode': mode}}}
            if len(full) > 1:
                D['inputFile2'] = full[1]
            if agg:
                D['Aggregation'] = strip(agg)
            if where in ('option -G', 'in the command'):
                D['geopotentialDir'] = gdir
            try:
                a = Pyg2pApi(ApiContext(D))
                res = list(a.execute().values())
                failed = None
                got = np.array([np.where(np.asarray(x) == a.mv, np.nan, np.asarray(x, float)) for x in res])
            except ApplicationException as e:
                failed, got = e, None
        else:
            r = w.run('-c', c, '-i', full[0], *second(full), '-o', w.out, '-B', *opts, *number)
            expect(r.exc is None, lambda: f'the run ended with {r.exc!r}')
            failed = None if r.status == 0 else r
            got = w.maps(case['fmt'])
        expect(sorted(os.listdir(w.geos)) == before, lambda: 'the geopotentials folder changed')
        if where in ('none', 'other grid only', 'file gone'):
            expect(failed is not None, lambda: f'correction without geopotential ({where}) succeeded')
            if not api:
                expect(not got.size or case['fmt'] == 'pcraster' and case['two'], lambda: f'correction without geopotential ({where}) wrote {os.listdir(w.out)}')
            rec.label('no geopotential', where)
            rec.hit()
            return
        expect(failed is None, lambda: f'the corrected run failed: {failed}')
        expect(got.shape == P.shape, lambda: f'{got.shape[0]} corrected maps of {got.shape[1:]}, {P.shape[0]} of {P.shape[1:]} without correction')
        dem = np.where(dm, np.nan, dem if case['dem_nc'] else dem.astype(np.float32)).astype(float)
        vals = 0
        for k, t in enumerate(times):
            # the last step at first resolution is 12
            gem = gems[1 if case['two'] and (t > 12) else 0]
            p = P[k]
            with np.errstate(all='ignore'):
                want = eval(case['formula'], {'p': p, 'gem': gem, 'dem': dem, 'where': np.where})
            want = np.where(np.isnan(p) | np.isnan(gem) | np.isnan(dem) | cl, np.nan, want)
            tol = dict(rtol=1e-9, atol=1e-9) if case['fmt'] == 'netcdf' and not api else dict(rtol=3e-6, atol=1e-6) if not api else dict(rtol=1e-9, atol=1e-9)
            ok = np.isclose(got[k], want, equal_nan=True, **tol)
            if not ok.all():
                i = tuple(int(x) for x in np.argwhere(~ok)[0])
                expect(False, f'step {t} cell {i} is {got[k][i]!r}, expected {want[i]!r} = {case["formula"]} of p={p[i]!r}, gem={gem[i]!r}, dem={dem[i]!r}')
            vals += int((~np.isnan(want)).sum())
    rec.label(where, mode, case['fmt'] if not api else 'in memory', case['formula'], case['gem'], *(['aggregated'] if agg else []), *([case['two']] if case['two'] else []), *(['missing dem'] if dm.any() else []), *(['missing geopotential'] if case['zmasked'] else []),
              *(['missing values'] if case['masked'] else []), 'netCDF dem' if case['dem_nc'] else 'PCRaster dem')
    rec.hit(vals > 1)


def warm():
    from . import c08
    c08.warm()


CHECK = Check(
    'C15', [Sub('corrections', case_, check, 1800, 50000,
                rule='corrected runs (command line and in memory, both formats) with generated fields, geopotentials, DEMs, formulas, modes, aggregations, one or two resolutions, and the geopotential in the input, registered, in '
                     'an additional or global folder, absent or gone; non-trivial: several corrected cells, or no geopotential')],
    rule='the formula computed with numpy on the maps of the run without correction and those of the geopotential itself (interpolated after the gem formula); see the sub-check',
    assumptions=['interpolation of values and of geopotentials themselves is the object of C07 to C10'], quick_s=70, warm=warm)
