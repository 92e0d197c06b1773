"""C04 missing values."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, scene, world
from ..engine import Check, Sub, expect, fail
from ..scene import GRIB_MODES

K = {'nearest': 1, 'invdist': 4, 'bilinear': 4, 'triangulation': 8, 'bilinear_delaunay': 8, 'adw': 11, 'grib_nearest': 1, 'grib_invdist': 4}


@st.composite
def case_(draw):
    mode = draw(st.sampled_from(['nearest', 'invdist', 'bilinear', 'triangulation', 'bilinear_delaunay', 'grib_nearest', 'grib_invdist', 'adw', 'grib_nearest', 'nearest']))
    grid = draw(scene.regular_grid(min_side=4 if mode == 'adw' else 3, max_side=6, square=mode == 'grib_invdist'))
    n = scene.n_points(grid)
    tgt = draw(scene.target(grid, max_side=4))
    agg = draw(st.sampled_from([None, None, 'accumulation', 'average', 'instantaneous']))
    S = draw(st.sampled_from([[6], [6, 12], [0, 6, 12], [3, 6, 9, 12], [6, 12, 24]])) if agg else draw(st.sampled_from([[6], [6, 12], [0, 6, 12]]))
    a = draw(st.sampled_from([6, 3, 12]))
    a = min(a, S[-1])
    vals = [draw(st.lists(st.integers(0, 800), min_size=n, max_size=n)) for _ in S]
    masks = [draw(st.one_of(st.none(), st.lists(st.sampled_from([True, False, False, False]), min_size=n, max_size=n), st.lists(st.booleans(), min_size=n, max_size=n))) for _ in S]
    if all(m is None or not any(m) for m in masks):
        masks[draw(st.integers(0, len(S) - 1))] = [i == draw(st.integers(0, n - 1)) for i in range(n)]
    corr = draw(st.integers(0, 3)) == 0
    # messages from this one on are at another resolution
    res2 = draw(st.sampled_from([None, None, None, 1, 2])) if len(S) > 1 and not corr and agg in (None, 'instantaneous') else None
    if res2:
        res2 = min(res2, len(S) - 1)
        g2 = second_grid(grid)
        for i in range(res2, len(S)):
            vals[i] = draw(st.integers(0, 9999))
            masks[i] = draw(st.one_of(st.none(), st.sampled_from([0.05, 0.2, 0.5, 0.0])))
    return dict(mode=mode, grid=grid, tgt=tgt, agg=agg, res2=res2, S=S, a=a, half=agg == 'average' and draw(st.booleans()), vals=vals, masks=masks,
                conv=draw(st.sampled_from([None, 'k2c', 'k2c_cut', 'aff', 'ident', 'ident_cut'])), corr=corr,
                zmask=draw(st.one_of(st.none(), st.lists(st.sampled_from([True, False, False]), min_size=n, max_size=n))) if corr else None,
                demmask=draw(st.one_of(st.none(), st.lists(st.sampled_from([True, False, False]), min_size=tgt['rows'] * tgt['cols'], max_size=tgt['rows'] * tgt['cols']))) if corr else None,
                fmt=draw(st.sampled_from(['pcraster', 'netcdf'])), edition=draw(st.sampled_from([1, 2])),
                parallel=mode not in GRIB_MODES and draw(st.booleans()), seed=draw(st.integers(0, 999)))


def second_grid(grid):
    """The same area with twice the points."""
    return dict(grid, ni=2 * grid['ni'] - 1, nj=2 * grid['nj'] - 1, dlat=grid['dlat'] / 2, dlon=grid['dlon'] / 2)


def fields(case):
    """Grid, values and missing cells of each message."""
    out = []
    for i, (v, m) in enumerate(zip(case['vals'], case['masks'])):
        g = case['grid']
        if case['res2'] and i >= case['res2']:
            g = second_grid(g)
            rng = np.random.default_rng(v)
            v = rng.integers(0, 800, scene.n_points(g))
            m = None if m is None else rng.uniform(size=scene.n_points(g)) < m
        v = 250.0 + np.array(v, float) / 8.0 + 40 * i
        out.append((g, v, np.zeros(v.size, bool) if m is None else np.array(m, bool)))
    return out


def run(w, case, tag, values, masks, zmask, geo, maps, dem, create=True, conv=None):
    grid, S = case['grid'], case['S']
    msgs = [dict(grid=second_grid(grid) if case['res2'] and i >= case['res2'] else grid, values=values[i], missing=None if masks is None else masks[i], shortName='2t', edition=case['edition'], end=s) for i, s in enumerate(S)]
    if case['corr']:
        msgs.append(dict(grid=grid, values=geo, missing=zmask, shortName='z', edition=case['edition'], end=0))
    g = world.write_grib(w.p('in.grb'), msgs)
    out = w.p('out' + tag)
    os.makedirs(out, exist_ok=True)
    par = {}
    if conv:
        par['@applyConversion'] = conv
    if case['corr']:
        par.update({'@demMap': dem, '@correctionFormula': 'p+gem-dem*0.0065', '@gem': '(z/9.81)*0.0065'})
    agg = None
    if case['agg']:
        agg = {'@step': case['a'], '@type': case['agg']}
        if case['half']:
            agg['@halfweights'] = True
    c = w.command('c.json', maps, case['mode'], parameter=par, aggregation=agg, outmaps={'@namePrefix': 'o', '@format': case['fmt']})
    r = w.run('-c', c, '-i', g, '-o', out, *(['-B'] if create else []), *(['-X'] if case['parallel'] else []))
    expect(r.exc is None and r.status == 0, lambda: f'run {tag} failed: {r}')
    if case['fmt'] == 'netcdf':
        f = [x for x in os.listdir(out) if x.endswith('.nc')]
        return world.read_nc(os.path.join(out, f[0]), 'o')['values']
    return np.array(list(w.pcr_outputs(out).values()))


def check(case, rec):
    rng = np.random.default_rng(case['seed'])
    grid, tgt, mode = case['grid'], case['tgt'], case['mode']
    f = fields(case)
    base, far = [v for _, v, _ in f], [m for _, _, m in f]
    masks = [m if m.any() else None for m in far]
    zfar = np.zeros(len(base[0]), bool) if case['zmask'] is None else np.array(case['zmask'], bool)
    pert = [b + f * rng.uniform(20, 90, b.size) * (i + 1) for i, (b, f) in enumerate(zip(base, far))]
    geo = 1000.0 + 100 * rng.integers(0, 40, base[0].size)
    geo2 = geo + zfar * rng.uniform(2000, 9000, geo.size)
    uncut = None if case['conv'] is None else case['conv'].replace('_cut', '')
    with world.World() as w:
        maps, la, lo, cm, cl = scene.make_target(w, grid, tgt)
        dem = None
        dm = np.zeros(la.shape, bool)
        if case['corr']:
            if case['demmask']:
                dm = np.array(case['demmask'], bool).reshape(la.shape)
            dem = world.write_pcr(w.p('dem.map'), rng.integers(0, 900, la.shape), (0, 1, 0, 10, 0, -1), dm)
        A = run(w, case, 'A', base, None, None, geo, maps, dem, conv=uncut)
        C = run(w, case, 'C', pert, None, None, geo2, maps, dem, conv=uncut)
        B = run(w, case, 'B', base, masks, case['zmask'], geo, maps, dem, conv=case['conv'])
        E = run(w, case, 'E', base, None, None, geo, maps, dem, conv=case['conv']) if case['conv'] and case['conv'].endswith('_cut') else A
        B2 = run(w, case, 'D', base, masks, case['zmask'], geo, maps, dem, create=False, conv=case['conv'])
        expect(A.shape == B.shape == C.shape == B2.shape, lambda: f'maps {A.shape} {B.shape} {C.shape} {B2.shape}')
        expect(np.allclose(B, B2, rtol=1e-9, atol=1e-9, equal_nan=True), lambda: f'the run with the stored table differs from the one which created it: {B.tolist()} {B2.tolist()}')
    near = np.zeros(la.shape, bool)
    for first in (True, False) if case['res2'] else (True,):
        parts = [m for i, m in enumerate(far) if first == (not case['res2'] or i < case['res2'])]
        g = grid if first else second_grid(grid)
        slat, slon = scene.grid_latlons(g)
        d = scene.chords(la, lo, slat, slon)
        miss = np.any(parts, axis=0)
        if first:
            miss = miss | zfar
        if mode in ('bilinear', 'triangulation', 'bilinear_delaunay'):
            box = (np.abs(la.ravel()[:, None] - slat) <= g['dlat'] * 1.0001) & (np.abs(scene.wrap180(lo.ravel()[:, None] - slon)) <= g['dlon'] * 1.0001)
            near |= (box & miss[None, :]).any(1).reshape(la.shape)
        else:
            k = min(K[mode], d.shape[1])
            kth = np.sort(d, axis=1)[:, k - 1]
            near |= ((d <= kth[:, None] * (1 + 1e-5) + 1e-6) & miss[None, :]).any(1).reshape(la.shape)
    strict = mode in ('nearest', 'grib_nearest')
    rec.label(mode, case['fmt'], f'agg {case["agg"]}', f'conv {case["conv"]}', 'correction' if case['corr'] else 'no correction', 'two resolutions' if case['res2'] else 'one resolution', 'netCDF target' if tgt['netcdf'] else 'PCRaster target')
    dependent = 0
    for i in range(A.shape[0]):
        for j in np.ndindex(la.shape):
            a, b, c = A[i][j], B[i][j], C[i][j]
            where = f'map {i} cell {j} ({mode})'
            if cl[j] or cm[j] or dm[j]:
                expect(np.isnan(b), lambda: f'{where}: {b!r}, but the cell is outside the clone or has no coordinates or no altitude')
                continue
            if np.isnan(a):
                expect(np.isnan(b), lambda: f'{where}: {b!r}, missing when no source cell is')
                continue
            if not np.isclose(a, c, rtol=1e-6, atol=1e-5):
                dependent += 1
                expect(np.isnan(b), lambda: f'{where}: {b!r}, but a source value it depends on is missing')
                continue
            want = E[i][j]
            if np.isnan(b):
                expect(near[j] and not strict, lambda: f'{where}: missing, but none of its source values is')
            else:
                expect(np.isclose(b, want, rtol=1e-5, atol=1e-3), lambda: f'{where}: {b!r} instead of {want!r}')
    rec.hit(dependent > 0)
    rec.label('some output missing' if dependent else 'no dependent output')


def warm():
    from . import c08
    c08.warm()


CHECK = Check(
    'C04', [Sub('paths', case_, check, 1600, 40000,
                rule='whole runs on the same world with no missing value, with the chosen source cells changed, and with them missing (new and stored table), through conversion, '
                     'cut-off, aggregation, correction, one or two resolutions, 8 interpolation modes and both formats; non-trivial: some output value depends on a missing source value')],
    rule='dependence of an output on the missing cells is measured by changing these cells in the code under test; see the sub-check',
    assumptions=['a value one of whose contributing source cells is missing with weight zero may be missing or not, except in the nearest modes'],
    quick_s=60, warm=warm)
