"""C10 grib_nearest and grib_invdist against the neighbours of ecCodes."""
import gzip
import os

import eccodes as ec
import numpy as np
from hypothesis import strategies as st

from .. import scene, world
from ..engine import Check, Sub, expect


@st.composite
def grid_(draw):
    k = draw(st.sampled_from(['regional', 'regional', 'regional', 'regional', 'regional', 'regional', 'global', 'global', 'reduced', 'reduced', 'rotated', 'rotated', 'tall']))
    if k == 'tall':
        # from middle to high latitudes: the distances between neighbours change
        lat0, dlat, nj = draw(st.sampled_from([(86.0, 4.0, 11), (80.0, 3.0, 12), (-44.0, 4.0, 11), (70.0, 3.0, 20)]))
        return dict(type='regular_ll', ni=draw(st.integers(3, 6)), nj=nj, lat0=lat0, lon0=draw(st.sampled_from([5.0, -3.0, 175.0])), dlat=dlat, dlon=draw(st.sampled_from([3.0, 2.0, 4.0])))
    if k == 'regional':
        return draw(scene.regular_grid())
    if k == 'global':
        d = draw(st.sampled_from([30.0, 45.0, 20.0, 10.0, 6.0]))
        lon0 = draw(st.sampled_from([0.0, -180.0]))
        top = draw(st.sampled_from([90.0, 90.0 - d / 2]))
        return dict(type='regular_ll', ni=int(360 / d), nj=int(2 * top / d) + 1, lat0=top, lon0=lon0, dlat=d, dlon=d)
    if k == 'reduced':
        return dict(type='reduced_gg', pl=draw(st.sampled_from([[6, 8, 8, 6], [4, 6, 8, 8, 6, 4], [8, 8, 8, 8], [20, 24, 28, 32, 32, 28, 24, 20], [12, 20, 24, 30, 32, 36, 36, 40, 40, 36, 36, 32, 30, 24, 20, 12]])))
    g = draw(scene.regular_grid(lat0s=(10.0, 5.0, 0.0), lon0s=(-5.0, 0.0, 5.0)))
    g.update(type='rotated_ll', splat=draw(st.sampled_from([-40.0, -90.0, -30.5])), splon=draw(st.sampled_from([10.0, 0.0, -25.0])))
    return g


@st.composite
def case_(draw):
    grid = draw(grid_())
    n = scene.n_points(grid)
    rows, cols = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    nc = draw(st.integers(0, 3)) == 0
    N = rows * cols
    if grid['type'] == 'regular_ll':
        frac = lambda m: st.one_of(scene.frac(m), scene.frac(m), scene.frac(m), st.floats(-2, m + 1, width=32), st.sampled_from([-0.25, m - 0.75, m + 3.0]))
        if nc:
            ys, xs = sorted(draw(st.lists(frac(grid['nj']), min_size=rows, max_size=rows))), sorted(draw(st.lists(frac(grid['ni']), min_size=cols, max_size=cols)))
            ty, tx = [y for y in ys for _ in xs], [x for _ in ys for x in xs]
        else:
            ty, tx = draw(st.lists(frac(grid['nj']), min_size=N, max_size=N)), draw(st.lists(frac(grid['ni']), min_size=N, max_size=N))
        lat = np.clip(grid['lat0'] - np.array(ty) * grid['dlat'], -90, 90).tolist()
        lon = [float(x) for x in (scene.wrap180(grid['lon0'] + np.array(tx) * grid['dlon']) if draw(st.booleans()) else grid['lon0'] + np.array(tx) * grid['dlon'])]
    else:
        la = st.one_of(st.integers(-85, 85).map(float), st.floats(-88, 88, width=32)) if grid['type'] == 'reduced_gg' else st.one_of(st.integers(20, 70).map(float), st.floats(35, 60, width=32))
        lo = st.one_of(st.integers(-180, 359).map(float), st.floats(-180, 359, width=32)) if grid['type'] == 'reduced_gg' else st.floats(-30, 30, width=32)
        if nc:
            a, o = draw(st.lists(la, min_size=rows, max_size=rows)), draw(st.lists(lo, min_size=cols, max_size=cols))
            lat, lon = [y for y in a for _ in o], [x for _ in a for x in o]
        else:
            lat, lon = draw(st.lists(la, min_size=N, max_size=N)), draw(st.lists(lo, min_size=N, max_size=N))
    mask = lambda: draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from([True, False, False]), min_size=N, max_size=N).filter(lambda m: not all(m)))) if not nc and N > 1 else None
    both = mask()
    return dict(grid=grid, rows=rows, cols=cols, nc=nc, lat=lat, lon=lon, latmask=both, lonmask=both if draw(st.integers(0, 2)) else mask(), mode=draw(st.sampled_from(scene.GRIB_MODES)),
                vals=draw(st.permutations(list(range(n)))) if n <= 60 else [(i * 37) % 211 for i in range(n)], second=draw(st.booleans()), edition=draw(st.sampled_from([1, 2])),
                parallel=draw(st.integers(0, 5)) == 0, fmt=draw(st.sampled_from(['pcraster', 'netcdf'])), date_line=draw(st.booleans()))


def neighbours(path, lat, lon, k):
    """What ecCodes reports for a cell of the first message: [(index, distance)] or None outside the area."""
    with open(path, 'rb') as f:
        gid = ec.codes_grib_new_from_file(f)
    out = []
    for a, o in zip(lat, lon):
        if a is None:
            out.append(None)
            continue
        try:
            r = ec.codes_grib_find_nearest(gid, a, o) if k == 1 else ec.codes_grib_find_nearest(gid, a, o, npoints=4)
            out.append([(x['index'], x['distance']) for x in r])
        except ec.GribInternalError:
            out.append(None)
    ec.codes_release(gid)
    return out


def quick_progress():
    """The progress bar of dask sleeps 10 s before it ends: not relevant here."""
    import dask
    from dask.diagnostics.progress import ProgressBar
    dask.config.set(num_workers=2)
    if not hasattr(ProgressBar, '_pv'):
        start = ProgressBar._start

        def _start(self, dsk):
            self._dt = 0.01
            return start(self, dsk)
        ProgressBar._start = _start
        ProgressBar._pv = True


def tables(folder):
    out = {}
    for f in sorted(os.listdir(folder)):
        with (gzip.open if f.endswith('.gz') else open)(os.path.join(folder, f), 'rb') as fh:
            out[f] = np.load(fh)
    return out


def same_table(a, b):
    if a.dtype.names:
        return a.dtype.names == b.dtype.names and all(a[k].shape == b[k].shape and np.allclose(a[k], b[k], rtol=1e-12, atol=0) for k in a.dtype.names)
    return a.shape == b.shape and np.array_equal(a, b)


def check(case, rec):
    quick_progress()
    grid, rows, cols, mode = case['grid'], case['rows'], case['cols'], case['mode']
    shape = (rows, cols)
    lat, lon = np.array(case['lat'], float).reshape(shape), np.array(case['lon'], float).reshape(shape)
    bad = np.zeros(shape, bool)
    for m in (case['latmask'], case['lonmask']):
        if m is not None:
            bad |= np.array(m, bool).reshape(shape)
    with world.World() as w:
        msgs = [dict(grid=grid, values=case['vals'], edition=case['edition'], end=6)]
        if case['second']:
            msgs.append(dict(grid=grid, values=[100 - v for v in case['vals']], edition=case['edition'], end=12))
        g = world.write_grib(w.p('in.grb'), msgs)
        src = world.read_grib(g)
        geo = (0.0, 1.0, 0.0, 10.0, 0.0, -1.0)
        maps = {'clone': world.write_pcr(w.p('clone.map'), np.ones(shape), geo)}
        if case['nc']:
            maps['lat'] = maps['lon'] = world.write_nc_map(w.p('t.nc'), np.ones(shape), lat[:, 0], lon[0])
        else:
            maps['lat'] = world.write_pcr(w.p('lat.map'), lat, geo, case['latmask'] and np.array(case['latmask']).reshape(shape))
            maps['lon'] = world.write_pcr(w.p('lon.map'), lon, geo, case['lonmask'] and np.array(case['lonmask']).reshape(shape))
            lat, lon = lat.astype(np.float32).astype(float), lon.astype(np.float32).astype(float)
        near = neighbours(g, [None if b else a for a, b in zip(lat.ravel().tolist(), bad.ravel())], lon.ravel().tolist(), 1 if mode == 'grib_nearest' else 4)
        want = []
        for d in src:
            v = d['values']
            row = []
            for nb in near:
                if nb is None:
                    row.append(np.nan)
                elif mode == 'grib_nearest':
                    row.append(v[nb[0][0]])
                else:
                    exact = [i for i, dist in nb if dist == 0]
                    if exact:
                        row.append(v[exact[0]])
                    else:
                        wt = np.array([1 / dist for _, dist in nb])
                        row.append(float((wt * v[[i for i, _ in nb]]).sum() / wt.sum()))
            want.append(np.array(row).reshape(shape))
        want = np.array(want)
        c = w.command('c.json', maps, mode, outmaps={'@namePrefix': 'o', '@format': case['fmt']})

        def one(tag, tab, *flags):
            os.makedirs(tab, exist_ok=True)
            out = w.p('out' + tag)
            r = w.run('-c', c, '-i', g, '-o', out, '-N', tab, *flags)
            expect(r.exc is None and r.status == 0, lambda: f'{tag} run failed: {r}')
            m = w.maps(case['fmt'], out=out)
            expect(m.shape == want.shape, lambda: f'{tag}: maps of shape {m.shape} instead of {want.shape}')
            ok = np.isclose(m, want, rtol=1e-5, atol=1e-5, equal_nan=True)
            if not ok.all():
                i = tuple(int(k) for k in np.argwhere(~ok)[0])
                n = near[i[1] * cols + i[2]]
                expect(False, f'{tag}: map {i[0]} cell {i[1:]} ({lat[i[1:]]}, {lon[i[1:]]}{", no coordinates" if bad[i[1:]] else ""}) is {m[i]!r}, expected {want[i]!r} from neighbours {n}')
            return m
        t1 = w.p('t1')
        one('serial', t1, '-B')
        one('stored table', t1)
        if case['parallel']:
            t2 = w.p('t2')
            os.remove(os.path.join(w.conf, 'intertables.json'))
            one('parallel', t2, '-B', '-X')
            a, b = tables(t1), tables(t2)
            expect(list(a) == list(b), lambda: f'tables {list(a)} {list(b)}')
            for k in a:
                expect(same_table(a[k], b[k]), lambda: f'the parallel table differs: {a[k].tolist()} {b[k].tolist()}')
    miss = np.isnan(want[0])
    rec.label(mode, grid['type'] + (' global' if grid['type'] == 'regular_ll' and grid['ni'] * grid['dlon'] >= 360 else ''), 'parallel' if case['parallel'] else 'serial', 'netCDF target' if case['nc'] else 'PCRaster target',
              'cells without coordinates' if bad.any() else 'all have coordinates', 'out of area' if (miss & ~bad).any() else 'all in the area',
              *(['latitude or longitude only'] if case['latmask'] != case['lonmask'] else []), *(['on a grid point'] if any(nb and nb[0][1] == 0 for nb in near) else []))
    rec.hit((~miss).sum() >= 2 or (~miss).any() and miss.any())


CHECK = Check(
    'C10', [Sub('neighbours', case_, check, 3600, 100000,
                rule='whole runs with generated grids (regional, global, reduced, rotated), scattered and gridded targets with cells on grid points, without one or both coordinates and out of the area; with a new '
                     'table, the stored one, and one made in parallel; non-trivial: two cells with values, or a value and a missing cell')],
    rule='the neighbours ecCodes itself reports for each cell; see the sub-check',
    assumptions=['ecCodes reports the right neighbours', "the pause of dask's progress bar is shortened"], quick_s=70)
