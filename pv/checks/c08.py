"""C08 angular and correlation-distance weighting."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import scene, world
from ..engine import Check, Sub, expect, fail

R = 6371229.0
K = 11
MODES = ('Hofstra', 'MixHofstraShepard', 'NewEtAl')


# ------------------------------------------------------------------ the published formulas
class Oracle:
    """Weights of each target cell on its K nearest stations. `sure` is False where a rule is decided by less than the precision."""

    def __init__(self, tlat, tlon, slat, slon, radius, eps):
        self.tlat, self.tlon, self.slat, self.slon = (np.ravel(np.asarray(a, float)) for a in (tlat, tlon, slat, slon))
        d = scene.chords(self.tlat, self.tlon, self.slat, self.slon) * radius
        order = np.argsort(d, axis=1, kind='stable')
        self.full = np.take_along_axis(d, order, 1)
        self.idx, self.d, self.eps = order[:, :K], self.full[:, :K], eps
        self.n = len(self.tlat)
        self.sure = np.ones(self.n, bool)

    def near(self, a, b):
        return np.abs(a - b) <= self.eps * np.maximum(np.abs(a), np.abs(b)) + self.eps

    def directional(self, s):
        x = self.tlat[:, None] - self.slat[self.idx]
        y = scene.wrap180(self.tlon[:, None] - self.slon[self.idx])
        out = np.ones((self.n, K))
        for c in range(self.n):
            for i in range(K):
                num = den = 0.0
                bad = False
                for j in range(K):
                    if j == i:
                        continue
                    norm = np.hypot(x[c, i], y[c, i]) * np.hypot(x[c, j], y[c, j])
                    if norm == 0:
                        bad = True
                        break
                    num += (1 - (x[c, i] * x[c, j] + y[c, i] * y[c, j]) / norm) * s[c, j]
                    den += s[c, j]
                if not bad and den > 0:
                    out[c, i] = num / den
        return out

    def adw(self, ref=None):
        d = self.d
        ref = np.mean(d[:, 6]) if ref is None else ref
        s = np.zeros_like(d)
        for c in range(self.n):
            if self.near(d[c, 3], ref) or self.near(d[c, 9], ref):
                self.sure[c] = False
            if d[c, 3] > ref:
                r = d[c, 4]
            elif d[c, 9] > ref:
                r = ref
            else:
                r = d[c, 10]
            for j in range(K):
                if d[c, j] == 0:
                    s[c, j] = np.inf
                elif d[c, j] <= r / 3:
                    s[c, j] = 1 / d[c, j]
                elif d[c, j] <= r:
                    s[c, j] = 27 / (4 * r) * (d[c, j] / r - 1) ** 2
        exact = d[:, 0] <= 1e-10
        s0 = np.where(exact[:, None], 0, s)
        w = s0 ** 2 * (1 + self.directional(s0))
        w[exact] = 0
        w[exact, 0] = 1
        return self.normal(w)

    def cdd(self, cdd, mode, options, grid=None):
        """cdd: km per target cell (2D)."""
        d = self.d
        s = np.zeros_like(d)
        flat = np.ravel(cdd) * 1000.0
        top10 = False
        if mode == 'Hofstra':
            for c in range(self.n):
                C = flat[c]
                self.sure[c] &= not any(self.near(x, C) for x in d[c])
                if d[c, 2] <= C:
                    s[c] = np.where(d[c] <= C, np.exp(-d[c] * 4 / C), 0)
        elif mode == 'MixHofstraShepard':
            m, least, ratio, which = options or (4, 4, 1 / 3, 'All')
            top10 = which == 'OnlyTOP10'
            for c in range(self.n):
                C = flat[c]
                self.sure[c] &= not (self.near(d[c, least - 1], C) or self.near(d[c, K - 2], C))
                r = d[c, least] if d[c, least - 1] > C else C if d[c, K - 2] > C else d[c, K - 1]
                self.sure[c] &= not any(self.near(x, r * ratio) for x in d[c])
                for j in range(K):
                    if d[c, j] <= r * ratio:
                        s[c, j] = np.exp(-d[c, j] * m / r)
                    elif d[c, j] <= r:
                        s[c, j] = (1 / (ratio - 1)) ** 2 * np.exp(-m * ratio) * (d[c, j] / r - 1) ** 2
        else:
            lat0, lon0, dlat, dlon = grid
            rows, cols = cdd.shape
            for c in range(self.n):
                for j in range(K):
                    k = self.idx[c, j]
                    # the cell of the station: outside the map the closest one
                    i = int(np.clip(np.floor((lat0 - self.slat[k]) / dlat + 1e-6), 0, rows - 1))
                    centre = lon0 + dlon * cols / 2
                    lon = centre + scene.wrap180(self.slon[k] - centre)
                    o = int(np.clip(np.floor((lon - lon0) / dlon + 1e-6), 0, cols - 1))
                    C = cdd[i, o] * 1000.0
                    self.sure[c] &= not self.near(d[c, j], C)
                    if d[c, j] <= C:
                        s[c, j] = np.exp(-d[c, j] * 4 / C)
        if top10:
            for c in range(self.n):
                o = np.sort(s[c])
                self.sure[c] &= o[0] == 0 or o[1] - o[0] > 1e-6 * o[1]
                s[c, np.argmin(s[c])] = 0
        t = self.directional(s)
        t = t / t.sum(1, keepdims=True)
        # the directional terms are relative to their sum on all the stations, also those without weight
        return self.normal(s * (1 + t), True)

    def normal(self, w, all_count=False):
        tot = w.sum(1, keepdims=True)
        # the set of stations must be certain
        if self.full.shape[1] > K:
            self.sure &= ~(self.near(self.full[:, K - 1], self.full[:, K]) & (all_count | (w[:, K - 1] > 1e-12 * tot[:, 0])))
        with np.errstate(all='ignore'):
            return np.where(tot > 0, w / tot, np.nan)


# ------------------------------------------------------------------ cases
@st.composite
def options(draw):
    if draw(st.integers(0, 3)) == 0:
        return None
    return [draw(st.integers(1, 8)), draw(st.integers(2, 9)), draw(st.sampled_from([0.25, 0.5, 0.4, 0.75])), draw(st.sampled_from(['All', 'OnlyTOP10']))]


def options_dict(o):
    return None if o is None else dict(m_const=o[0], min_num_of_station=o[1], radius_ratio=o[2], weights_mode=o[3])


@st.composite
def unit_case(draw):
    mode = draw(st.sampled_from(['adw', 'adw', 'cdd', 'cdd', 'cdd']))
    rows, cols = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    cm = draw(st.sampled_from(MODES)) if mode == 'cdd' else ''
    return dict(mode=mode, cdd_mode=cm, options=draw(options()) if cm == 'MixHofstraShepard' else None, rows=rows, cols=cols,
                lat0=draw(st.sampled_from([50.0, 10.5, -20.0, 2.0])), lon0=draw(st.sampled_from([5.0, 0.0, -2.0, 178.5, -180.0, 100.0])), dlat=draw(st.sampled_from([0.5, 1.0])), dlon=draw(st.sampled_from([0.5, 1.0])),
                n=draw(st.integers(K, 40)), spread=draw(st.sampled_from([1.0, 3.0])), seed=draw(st.integers(0, 9999)), on_station=draw(st.integers(0, 3)), cluster=draw(st.booleans()),
                lon360=draw(st.booleans()), constant=draw(st.integers(0, 3)) == 0, cdd_km=draw(st.sampled_from([60, 150, 300, 800, 2500])), cdd_vary=draw(st.booleans()), cdd_nc=draw(st.booleans()),
                broadcasting=draw(st.booleans()), splits=draw(st.sampled_from([1, 2, 3, 5])), parallel=draw(st.booleans()), f32=draw(st.integers(0, 3)) == 0)


def build(case):
    rng = np.random.default_rng(case['seed'])
    rows, cols = case['rows'], case['cols']
    tlat = (case['lat0'] - np.arange(rows) * case['dlat'])[:, None] * np.ones((1, cols))
    tlon = (case['lon0'] + np.arange(cols) * case['dlon'])[None, :] * np.ones((rows, 1))
    h, w = rows * case['dlat'], cols * case['dlon']
    n, sp = case['n'], case['spread']
    slat = case['lat0'] - h / 2 + rng.uniform(-sp, sp, n) * h
    slon = case['lon0'] + w / 2 + rng.uniform(-sp, sp, n) * w
    if case['cluster']:
        slat[:4] = case['lat0'] + 0.3 * case['dlat'] + rng.uniform(0, 0.2, 4)
        slon[:4] = case['lon0'] + 0.3 * case['dlon'] + rng.uniform(0, 0.2, 4)
    if case['cdd_mode'] == 'NewEtAl':
        # well inside the cells, so that the cell of each station is certain
        slat = case['lat0'] - (np.round((case['lat0'] - slat) / case['dlat']) + rng.uniform(0.05, 0.45, n)) * case['dlat']
        slon = case['lon0'] + (np.round((slon - case['lon0']) / case['dlon']) + rng.uniform(0.05, 0.45, n)) * case['dlon']
    cells = rng.permutation(rows * cols)[:case['on_station']]
    for i, c in enumerate(cells):
        slat[-1 - i], slon[-1 - i] = tlat.ravel()[c], tlon.ravel()[c]
    slat = np.clip(slat, -89, 89)
    tlon = scene.wrap180(tlon) if case['mode'] == 'adw' or case['cdd_mode'] != 'NewEtAl' else tlon
    slon = slon % 360 if case['lon360'] else scene.wrap180(slon)
    if case['f32']:
        tlat, tlon = tlat.astype(np.float32), tlon.astype(np.float32)
    z = np.full(n, 7.25) if case['constant'] else np.round(rng.uniform(-20, 80, n), 2)
    cdd = case['cdd_km'] * (rng.uniform(0.4, 1.6, (rows, cols)) if case['cdd_vary'] else np.ones((rows, cols)))
    return tlat, tlon, slat, slon, z, cdd


def interpolate(case, tlat, tlon, slat, slon, z, cdd_path, **kw):
    from pyg2p.main.interpolation.scipy_interpolation_lib import ScipyInterpolation
    args = dict(use_broadcasting=False, num_of_splits=None, parallel=False)
    args.update(kw)
    s = ScipyInterpolation(slon.copy(), slat.copy(), {'gridType': 'regular_ll', 'Nj': 10, 'radius': R}, z.copy(), K, np.nan, 9999.0, mode=case['mode'], cdd_map=cdd_path, cdd_mode=case['cdd_mode'],
                           cdd_options=options_dict(case['options']), **args)
    r, w, ix = s.interpolate(tlon.copy(), tlat.copy())
    return np.asarray(np.ma.filled(np.ma.asarray(r, dtype=float), np.nan)).ravel(), np.asarray(w, float), np.asarray(ix)


def compare(what, z, r, w, ix, want, orc, tol):
    """The result, and its weights, against the formula."""
    values = np.where(np.isnan(want).any(1), np.nan, (np.nan_to_num(want) * z[orc.idx]).sum(1))
    scale = max(1.0, np.abs(z).max())
    for c in range(orc.n):
        if not orc.sure[c]:
            continue
        if np.isnan(values[c]):
            expect(np.isnan(r[c]), lambda: f'{what}: cell {c} is {r[c]!r}, but no station has weight')
            continue
        expect(abs(r[c] - values[c]) <= tol * scale, lambda: f'{what}: cell {c} is {r[c]!r}, the formula gives {values[c]!r}')
        full = np.zeros(len(z))
        np.add.at(full, orc.idx[c], want[c])
        got = np.zeros(len(z))
        np.add.at(got, ix[c], w[c])
        expect(np.abs(got - full).max() <= tol * 10, lambda: f'{what}: weights of cell {c} are {w[c].tolist()} on {ix[c].tolist()}, expected {want[c].tolist()} on {orc.idx[c].tolist()}')
        expect((w[c] >= 0).all() and abs(w[c].sum() - 1) <= tol, lambda: f'{what}: weights of cell {c}: {w[c].tolist()}')


def unit_check(case, rec):
    tlat, tlon, slat, slon, z, cdd = build(case)
    # maps in PCRaster format are in single precision
    tol = 3e-4 if case['f32'] else 1e-8 if case['mode'] == 'adw' or case['cdd_nc'] else 1e-6
    with world.World() as w:
        path = ''
        if case['mode'] == 'cdd':
            if case['cdd_nc']:
                path = world.write_nc_map(w.p('cdd.nc'), cdd, tlat[:, 0].astype(float), tlon[0].astype(float))
            else:
                path = world.write_pcr(w.p('cdd.map'), cdd)
                cdd = cdd.astype(np.float32).astype(float)
        orc = Oracle(tlat, tlon, slat, slon, R, 1e-4 if case['f32'] else 1e-9 if tol == 1e-8 else 1e-6)
        want = orc.adw() if case['mode'] == 'adw' else orc.cdd(cdd, case['cdd_mode'], case['options'], (case['lat0'], case['lon0'], case['dlat'], case['dlon']))
        orc.sure &= np.ones(orc.n, bool) if not case['f32'] else ((orc.d[:, 0] > 2000) | (orc.d[:, 0] == 0))
        if case['f32'] and case['mode'] == 'adw':
            # single precision does not find the distance of 0 exactly
            tol_exact = (orc.d[:, 0] == 0)
            orc.sure &= ~tol_exact
        r, wt, ix = interpolate(case, tlat, tlon, slat, slon, z, path)
        compare('plain', z, r, wt, ix, want, orc, tol)
        for what, kw in (('broadcasting', dict(use_broadcasting=True)), (f'{case["splits"]} splits', dict(num_of_splits=case['splits'], use_broadcasting=case['broadcasting'])),
                         ('parallel', dict(parallel=True))):
            if what == 'parallel' and not case['parallel'] or what == 'broadcasting' and not case['broadcasting']:
                continue
            r2, w2, ix2 = interpolate(case, tlat, tlon, slat, slon, z, path, **kw)
            t2 = 1e-5 if case['f32'] else 1e-10
            expect(np.allclose(r, r2, rtol=t2, atol=t2 * 100, equal_nan=True), lambda: f'{what} gives {r2.tolist()}, plain computation {r.tolist()}')
            expect(np.array_equal(ix, ix2) and np.allclose(wt, w2, rtol=t2, atol=t2, equal_nan=True), lambda: f'{what}: other weights than the plain computation: {w2.tolist()} {wt.tolist()}')
    used = int((want > 0).sum(1).max()) if not np.isnan(want).all() else 0
    rec.label(case['mode'] + ' ' + case['cdd_mode'], 'float32' if case['f32'] else 'float64', 'on a station' if case['on_station'] else 'generic', 'cells without weight' if np.isnan(want).any() else 'all cells have weight',
              'some stations without weight' if (want == 0).any() else 'all stations used', *(['uncertain cells'] if not orc.sure.all() else []))
    rec.hit(used > 2 and orc.sure.any())


# ------------------------------------------------------------------ whole runs
@st.composite
def run_case(draw):
    mode = draw(st.sampled_from(['adw', 'cdd', 'cdd']))
    cm = draw(st.sampled_from(MODES)) if mode == 'cdd' else ''
    grid = draw(scene.regular_grid(min_side=4, max_side=6))
    n = scene.n_points(grid)
    tgt = draw(scene.target(grid, max_side=4, min_side=2, outside=False, masks=False, clone=False, generic=True, netcdf=draw(st.booleans())))
    if cm == 'NewEtAl':
        tgt.update(ty=[i // tgt['cols'] - 0.25 for i in range(tgt['rows'] * tgt['cols'])], tx=[i % tgt['cols'] - 0.25 for i in range(tgt['rows'] * tgt['cols'])])
    return dict(mode=mode, cdd_mode=cm, options=draw(options()) if cm == 'MixHofstraShepard' else None, grid=grid, tgt=tgt,
                vals=draw(st.lists(st.integers(-200, 800), min_size=n, max_size=n)), cdd=draw(st.lists(st.integers(50, 900), min_size=tgt['rows'] * tgt['cols'], max_size=tgt['rows'] * tgt['cols'])),
                cdd_nc=draw(st.booleans()), broadcasting=draw(st.booleans()), splits=draw(st.sampled_from([None, 1, 2, 3, 6])), parallel=draw(st.booleans()), edition=draw(st.sampled_from([1, 2])),
                fmt=draw(st.sampled_from(['pcraster', 'netcdf'])))


def run_check(case, rec):
    grid, tgt = case['grid'], case['tgt']
    with world.World() as w:
        g = world.write_grib(w.p('in.grb'), [dict(grid=grid, values=np.array(case['vals']) / 8.0, edition=case['edition'], end=6)])
        src = world.read_grib(g)[0]
        maps, la, lo, cm, cl = scene.make_target(w, grid, tgt)
        cdd = np.array(case['cdd'], float).reshape(la.shape)
        inter = {}
        if case['mode'] == 'cdd':
            p = world.write_nc_map(w.p('cdd.nc'), cdd, np.arange(la.shape[0]), np.arange(la.shape[1])) if case['cdd_nc'] else world.write_pcr(w.p('cdd.map'), cdd)
            inter = {'@cdd_map': p, '@cdd_mode': case['cdd_mode']}
            if case['options']:
                inter['@cdd_options'] = options_dict(case['options'])
        if case['broadcasting']:
            inter['@use_broadcasting'] = True
        if case['splits'] is not None:
            inter['@num_of_splits'] = case['splits']
        c = w.command('c.json', maps, case['mode'], interpolation=inter, outmaps={'@namePrefix': 'o', '@format': case['fmt']})
        outs = []
        for k, flags in enumerate((['-B'] + (['-X'] if case['parallel'] else []), [])):
            out = w.p(f'out{k}')
            r = w.run('-c', c, '-i', g, '-o', out, *flags)
            expect(r.exc is None and r.status == 0, lambda: f'run failed: {r}')
            outs.append(w.maps(case['fmt'], out=out))
        f32 = not tgt['netcdf']
        orc = Oracle(la, lo, src['lats'], src['lons'], src['radius'], 1e-4 if f32 else 1e-8)
        if case['mode'] == 'adw':
            want = orc.adw()
        else:
            want = orc.cdd(cdd, case['cdd_mode'], case['options'], (la[0, 0], lo[0, 0], la[0, 0] - la[1, 0], scene.wrap180(lo[0, 1] - lo[0, 0])))
        if f32:
            orc.sure &= orc.d[:, 0] > 2000
            # the whole computation is in single precision: distances of some metres are lost
        else:
            orc.sure &= (orc.d[:, 0] > 1) | (orc.d[:, 0] == 0)
        z = src['values']
        values = np.where(np.isnan(want).any(1), np.nan, (np.nan_to_num(want) * z[orc.idx]).sum(1)).reshape(la.shape)
        for k, o in enumerate(outs):
            expect(o.shape == (1,) + la.shape, lambda: f'run {k}: maps {o.shape}')
            got = o[0]
            sure = orc.sure.reshape(la.shape)
            expect((np.isnan(got) == np.isnan(values))[sure].all(), lambda: f'run {k}: {got.tolist()} expected {values.tolist()}')
            ok = sure & ~np.isnan(values)
            tol = 1e-3 if f32 else 2e-6
            bad = np.abs(got - values)[ok] > tol * 100
            expect(not bad.any(), lambda: f'run {k}: {got.tolist()} expected {values.tolist()} (certain cells {sure.tolist()})')
            fin = ~np.isnan(got)
            expect((got[fin] >= z.min() - 1e-3).all() and (got[fin] <= z.max() + 1e-3).all(), lambda: f'run {k}: {got.tolist()} outside the range of the stations {z.min()} {z.max()}')
    rec.label(case['mode'] + ' ' + case['cdd_mode'], 'netCDF target' if tgt['netcdf'] else 'PCRaster target', f'splits {case["splits"]}')
    rec.hit(bool(orc.sure.any()) and not np.isnan(values[sure]).all())


def warm():
    """Compiles the kernels once, each in a process of its own, into the shared cache."""
    from pyg2p.main.interpolation import scipy_interpolation_lib as L
    d64 = np.sort(np.random.default_rng(0).uniform(1, 10, (3, K)), axis=1)
    jobs = []
    for dt in (np.float64, np.float32):
        d = d64.astype(dt)
        for ref in (None, dt(4.0)):
            jobs.append(lambda d=d, ref=ref: L.adw_compute_weights_from_cutoff_distances(d, np.zeros_like(d), ref))
        jobs.append(lambda d=d, dt=dt: L.adw_and_cdd_compute_weights_directional_in_broadcasting(np.zeros_like(d), np.arange(12.0), np.arange(12.0), np.arange(33).reshape(3, K) % 12, np.zeros(3, dt), np.zeros(3, dt)))

        def cdd(d=d):
            for c in (np.ones(3), np.ones(3, np.float32)):
                L.cdd_hofstra_compute_weights_from_cutoff_distances(d, c, np.zeros_like(d))
                L.cdd_hofstra_shepard_compute_weights_from_cutoff_distances(d, c, K, np.zeros_like(d), 4, 4, 1 / 3)
        jobs.append(cdd)
    pids = []
    for j in jobs:
        pid = os.fork()
        if pid == 0:
            try:
                j()
            except Exception:
                pass
            os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)


CHECK = Check(
    'C08',
    [Sub('weights', unit_case, unit_check, 4000, 100000,
         rule='generated stations (scattered, clustered, on target cells, across the date line), targets, correlation-distance maps, modes and options given to the interpolation, plain and with broadcasting, '
              'splits and parallel; non-trivial: a cell whose rules are certain uses three stations or more'),
     Sub('runs', run_case, run_check, 1500, 40000,
         rule='whole command line runs with adw and cdd on generated grids, creating the table and then using it; non-trivial: a cell with certain rules has a value')],
    rule='Shepard, Hofstra, mixed and New et al. weights with directional terms computed by an independent implementation on brute-force distances; non-trivial as given per sub-check',
    assumptions=['cells where a distance is within the floating point precision of a cut-off, or where the eleventh and twelfth stations are equally near, are not compared with the formula',
                 'with NewEtAl the correlation distance of a station is the one of the cell of the target whose first corner (towards the north west) precedes it; stations outside the map use the closest cell'],
    quick_s=60, warm=warm)
