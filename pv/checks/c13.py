"""C13 PCRaster output."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import aggr, aggcheck, gen, scene, world
from ..engine import Check, Sub, expect


def name_8_3(prefix, number):
    """README: the prefix and the map number, filled with zeros in between, as 8.3."""
    s = prefix + str(number).rjust(11 - len(prefix), '0')
    return s[:8] + '.' + s[8:]


@st.composite
def fields_case(draw):
    """Grid, fields per step, target, modes: what a run writes is known from the fields alone (target cells are source points)."""
    ni, nj = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    S = draw(st.one_of(st.sampled_from([[6], [0, 6, 12], [6, 12, 18, 24], [3, 9, 12]]), st.lists(st.integers(0, 60), min_size=1, max_size=14, unique=True).map(sorted)))
    kind = draw(st.sampled_from([None, None, None, 'accumulation', 'average', 'instantaneous'])) if len(S) > 1 and len(S) < 8 else None
    rows, cols = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    pick = [draw(st.lists(st.integers(0, k - 1), min_size=m, max_size=m, unique=True)) if m <= k and draw(st.booleans()) else draw(st.lists(st.integers(0, k - 1), min_size=m, max_size=m)) for k, m in ((nj, rows), (ni, cols))]
    r = rows * cols
    case = dict(ni=ni, nj=nj, S=S, kind=kind, a=draw(st.sampled_from([3, 6, 12])), unit=draw(st.sampled_from([24, 6])), iy=sorted(pick[0]), ix=sorted(pick[1]),
                seed=draw(st.integers(0, 99999)), masked=draw(st.sampled_from([0, 0, 0.2, 0.6])),
                conv=draw(st.sampled_from([None, None, 'k2c', 'aff', 'ident', 'k2c_cut'])), mode=draw(st.sampled_from(['grib_nearest', 'nearest', 'grib_nearest', 'invdist'])),
                clone_mask=draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=r, max_size=r))),
                coord_mask=draw(st.one_of(st.none(), st.none(), st.lists(st.booleans(), min_size=r, max_size=r).filter(lambda m: not all(m)))), nc_target=draw(st.booleans()),
                edition=draw(st.sampled_from([1, 2])), order=draw(st.permutations(range(len(S)))),
                geo=draw(st.sampled_from([[0.0, 1.0, 0.0, 10.0, 0.0, -1.0], [2500000.0, 5000.0, 0.0, 5500000.0, 0.0, -5000.0], [-25.25, 0.05, 0.0, 72.25, 0.0, -0.05], [-180.0, 0.1, 0.0, 90.0, 0.0, -0.1]])),
                clone_vals=draw(st.sampled_from([1.0, 0.0, -5.5, 9999.0])))
    if case['mode'] == 'invdist':
        case['masked'] = 0          # neighbours without weight may count or not
    return case


def conv_fun(case):
    f = {None: lambda x: x, 'k2c': lambda x: x - 273.15, 'aff': lambda x: x * 2 - 5, 'ident': lambda x: x, 'k2c_cut': lambda x: x - 273.15}[case['conv']]
    return f, case['conv'] == 'k2c_cut'


def fields_of(case):
    """One field per step, with usual, special and missing values."""
    rng = np.random.default_rng(case['seed'])
    n = case['ni'] * case['nj']
    out = []
    for _ in case['S']:
        v = rng.uniform(-300, 9000, n) if rng.integers(2) else np.round(rng.uniform(-20, 400, n), 2)
        special = rng.random(n) < 0.2
        v[special] = rng.choice([0.0, 9999.0, 273.15, -0.125, -9999.0, 1e-3], special.sum())
        out.append((v, rng.random(n) < case['masked'] if case['masked'] and rng.integers(3) else None))
    return out


def setup(w, case, clone_nc=False):
    """Writes everything; -> (grib, maps, {(from, to): expected 2D masked array} or None, clone mask)."""
    grid = dict(aggcheck.GRID, ni=case['ni'], nj=case['nj'])
    S, a = case['S'], case['a']
    fields = fields_of(case)
    g = world.write_grib(w.p('in.grb'), [dict(grid=grid, values=fields[i][0], missing=fields[i][1], edition=case['edition'], end=S[i]) for i in case['order']])
    f, cut = conv_fun(case)
    F = {d['endStep']: f(np.ma.array(d['values'], mask=d['mask'])) for d in world.read_grib(g)}
    if case['kind'] is None:
        want = {(s, s): F[s] for s in S}
    elif S[-1] < a or S[0] > a:
        return None
    elif case['kind'] == 'accumulation':
        want = aggr.accumulation(F, a, case['unit'], 0, S[-1], False)
    elif case['kind'] == 'average':
        want = aggr.average(F, a, 0, S[-1])
    else:
        want = aggr.instantaneous(F, a, 0, S[-1])
    rows, cols = len(case['iy']), len(case['ix'])
    shape = (rows, cols)
    bad = np.zeros(shape, bool)
    iy, ix = np.repeat(case['iy'], cols), np.tile(case['ix'], rows)
    lats, lons = (grid['lat0'] - iy * grid['dlat']).reshape(shape), (grid['lon0'] + ix * grid['dlon']).reshape(shape)
    nc = case['nc_target']
    cl = np.zeros(shape, bool) if case['clone_mask'] is None else np.array(case['clone_mask'], bool).reshape(shape)
    geo = tuple(case['geo'])
    maps = {}
    if clone_nc:
        maps['clone'] = world.write_nc_map(w.p('clone.nc'), np.full(shape, case['clone_vals']), lats[:, 0], lons[0], mask=cl)
    else:
        maps['clone'] = world.write_pcr(w.p('clone.map'), np.full(shape, case['clone_vals']), geo, cl)
    if nc:
        maps['lat'] = maps['lon'] = world.write_nc_map(w.p('target.nc'), np.ones(shape), lats[:, 0], lons[0])
    else:
        if case['coord_mask'] is not None:
            bad = np.array(case['coord_mask'], bool).reshape(shape)
        maps['lat'] = world.write_pcr(w.p('lat.map'), lats, geo, bad)
        maps['lon'] = world.write_pcr(w.p('lon.map'), lons, geo, bad)
    out = {}
    for k, v in want.items():
        x, m = aggr.split(v)
        if cut:
            x = np.where(x < 0, 0, x)
        out[k] = np.ma.array(x[iy * case['ni'] + ix].reshape(shape), mask=m[iy * case['ni'] + ix].reshape(shape) | bad)
    return g, maps, out, cl, lats, lons


@st.composite
def case_(draw):
    case = draw(fields_case())
    k = 40
    length = draw(st.integers(1, 9))
    prefix = draw(st.text('abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_', min_size=length, max_size=length))
    if prefix[0] not in 'abcdefghijklmnopqrstuvwxyzABCXYZ':
        prefix = 'p' + prefix[1:]
    room = min(11 - length, 6)
    fmap = draw(st.sampled_from([1, 1, 2, 9, 10, 24, 98, 99, 100, 240, 995, 999, 1000]))
    ext = draw(st.sampled_from([1, 1, 2, 4, 6, 24, 100]))
    while fmap + (k - 1) * ext >= 10 ** room:
        fmap, ext = max(fmap // 10, 1), max(ext // 10, 1)
        if (fmap, ext) == (1, 1):
            break
    case.update(prefix=prefix, fmap=fmap, ext=ext, by_json=draw(st.lists(st.booleans(), min_size=4, max_size=4)), outdir=draw(st.sampled_from(['out', 'out/', 'new/sub', 'rel'])), again=draw(st.booleans()))
    return case


def check(case, rec):
    with world.World() as w:
        s = setup(w, case)
        if s is None:
            rec.label('skipped: no windows')
            return
        g, maps, want, cl, _, _ = s
        js, om, argv = case['by_json'], {'@unitTime': case['unit']}, []
        for key, opt, v, j in (('@namePrefix', '-n', case['prefix'], js[0]), ('@fmap', '-f', case['fmap'], js[1]), ('@ext', '-x', case['ext'], js[2]), ('@format', '-F', 'pcraster', js[3])):
            if j:
                om[key] = v
            else:
                argv += [opt, v]
        out = w.p(case['outdir'])
        c = w.command('c.json', maps, case['mode'], parameter={'@applyConversion': case['conv']} if case['conv'] else None, outmaps=om,
                      aggregation={'@step': case['a'], '@type': case['kind']} if case['kind'] else None)
        numbers = [case['fmap'] + i * case['ext'] for i in range(len(want))]
        names = [name_8_3(case['prefix'], x) for x in numbers]
        if len(set(names)) < len(names) or len(case['prefix']) + len(str(numbers[-1])) > 11:
            rec.label('skipped: names longer than 8.3')
            return
        for k in range(2 if case['again'] else 1):
            r = w.run('-c', c, '-i', g, '-o', 'rel/' if case['outdir'] == 'rel' else out, '-B', *argv)
            expect(r.exc is None and r.status == 0, lambda: f'run failed: {r}')
            got = sorted(os.listdir(out))
            expect(got == sorted(names), lambda: f'files {got}, expected {sorted(names)}')
        _, mv0, geo0, _ = world.read_pcr(maps['clone'])
        for name, key in zip(names, sorted(want)):
            a, mv, geo, driver = world.read_pcr(os.path.join(out, name))
            expect(driver == 'PCRaster', lambda: f'{name}: format {driver}')
            expect(a.shape == cl.shape, lambda: f'{name}: size {a.shape}, the clone is {cl.shape}')
            expect(geo == geo0, lambda: f'{name}: georeference {geo}, the clone has {geo0}')
            expect(mv == mv0, lambda: f'{name}: no-data {mv!r}, the clone has {mv0!r}')
            x, m = aggr.split(want[key])
            m = m | cl
            tol = 1e-6 if case['kind'] == 'accumulation' or case['mode'] == 'invdist' else 0
            err = aggr.compare(np.ma.masked_invalid(a), np.ma.array(x, mask=m), f'{name} of {key}', max(tol, 2.5e-7) * (1 if tol else 1), scale=None if not tol else 9000.0 * 8)
            expect(err is None, err)
            if not tol:
                ok = ~m
                expect((np.abs(a - x)[ok] <= 1.3e-7 * np.abs(x)[ok] + 1e-12 + (0 if case['conv'] is None else 1e-4)).all(), lambda: f'{name}: {a.tolist()}, expected {x.tolist()} to single precision')
    rec.label(f'{min(len(want), 5)} maps', case['kind'] or 'no aggregation', 'netCDF target' if case['nc_target'] else 'PCRaster target', *(['clone with no-data'] if cl.any() else []), *(['missing values'] if any(np.ma.getmaskarray(v).any() for v in want.values()) else []),
              f'prefix of {len(case["prefix"])}', *(['more than 3 digits'] if numbers[-1] > 999 else []))
    rec.hit(len(want) > 1 and bool((~cl).any()))


# ------------------------------------------------------------------ the writer
@st.composite
def writer_case(draw):
    rows, cols = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    n = rows * cols
    special = [float('nan'), 0.0, -0.0, world.PCR_MV, 9999.0, 3.4e38, -3.4e38, 1e-38, 16777217.0]
    return dict(rows=rows, cols=cols, maps=[dict(v=draw(st.lists(st.one_of(st.sampled_from(special), st.floats(-1e6, 1e6)), min_size=n, max_size=n)), m=draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=n, max_size=n))))
                                            for _ in range(draw(st.integers(1, 4)))],
                clone_mask=draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=n, max_size=n))), geo=draw(st.sampled_from([[0.0, 1.0, 0.0, 10.0, 0.0, -1.0], [-25.25, 0.05, 0.0, 72.25, 0.0, -0.05]])))


def writer_check(case, rec):
    from pyg2p.main.writers.pcr import PCRasterWriter
    shape = (case['rows'], case['cols'])
    cl = np.zeros(shape, bool) if case['clone_mask'] is None else np.array(case['clone_mask'], bool).reshape(shape)
    with world.World() as w:
        clone = world.write_pcr(w.p('clone.map'), np.full(shape, 3.0), tuple(case['geo']), cl)
        before = open(clone, 'rb').read()
        wr = PCRasterWriter(clone)
        for i, x in enumerate(case['maps']):
            v = np.array(x['v'], float).reshape(shape)
            m = np.zeros(shape, bool) if x['m'] is None else np.array(x['m'], bool).reshape(shape)
            wr.write(w.p(f'o{i}.map'), np.ma.array(v.copy(), mask=m) if x['m'] is not None else v.copy())
        wr.close()
        expect(open(clone, 'rb').read() == before, 'the clone map was changed')
        for i, x in enumerate(case['maps']):
            v = np.array(x['v'], float).reshape(shape)
            m = np.zeros(shape, bool) if x['m'] is None else np.array(x['m'], bool).reshape(shape)
            a, mv, geo, _ = world.read_pcr(w.p(f'o{i}.map'))
            expect(geo == world.read_pcr(clone)[2] and mv == world.read_pcr(clone)[1] and a.shape == shape, lambda: f'map {i}: {geo} {mv} {a.shape}')
            none = m | cl | np.isnan(v) | (v == world.PCR_MV)
            expect((np.isnan(a) == none).all(), lambda: f'map {i}: {a.tolist()} of {v.tolist()} masked at {none.tolist()}')
            expect((a[~none] == v[~none].astype(np.float32)).all(), lambda: f'map {i}: {a.tolist()} of {v.tolist()}')
    rec.hit(len(case['maps']) > 1 or cl.any())


CHECK = Check(
    'C13',
    [Sub('maps', case_, check, 2600, 80000,
         rule='whole runs with generated fields, steps, aggregations, conversions, clones, prefixes, first numbers and extension steps; non-trivial: two maps or more on a clone with cells'),
     Sub('writer', writer_case, writer_check, 3000, 80000,
         rule='the PCRaster writer on sequences of generated arrays with NaN, masked, no-data codes and extreme values; non-trivial: several maps, or a clone with no-data')],
    rule='names, number, georeference, no-data and cells of the maps read back with GDAL against the clone and the values computed from the fields; see the sub-checks',
    assumptions=['prefix and number together have at most 11 characters (the 8.3 rule has no name for the others)', 'the clone is a scalar map (other cell types cannot hold the values)'], quick_s=60)
