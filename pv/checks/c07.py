"""C07 nearest and invdist against a brute-force great-circle search."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import scene, world
from ..engine import Check, Sub, expect
from . import c10


@st.composite
def case_(draw):
    case = draw(c10.case_())
    case['mode'] = draw(st.sampled_from(['nearest', 'invdist']))
    g = case['grid']
    case['rotated_target'] = g['type'] == 'rotated_ll' and draw(st.booleans())
    if case['rotated_target'] or g['type'] == 'rotated_ll' and draw(st.booleans()):
        # positions close to the grid, in the coordinates of the rotated grid
        case['ty'] = draw(st.lists(st.one_of(scene.frac(g['nj']), st.floats(-3, g['nj'] + 2, width=32)), min_size=case['rows'] * case['cols'], max_size=case['rows'] * case['cols']))
        case['tx'] = draw(st.lists(st.one_of(scene.frac(g['ni']), st.floats(-3, g['ni'] + 2, width=32)), min_size=case['rows'] * case['cols'], max_size=case['rows'] * case['cols']))
        case['nc'] = False
    elif not case['nc'] and draw(st.integers(0, 9)) == 0:
        # a larger target: one row repeated with small shifts
        k = draw(st.integers(20, 60))
        n, rows = case['rows'] * case['cols'], case['rows']
        case['lat'] = [float(np.clip(a + 0.001 * j, -90, 90)) for j in range(k) for a in case['lat']]
        case['lon'] = [o + 0.001 * j for j in range(k) for o in case['lon']]
        for m in ('latmask', 'lonmask'):
            case[m] = case[m] and case[m] * k
        case['rows'] = rows * k
    case['parallel'] = draw(st.booleans())
    return case


def rotated_to_true(grid, lat, lon):
    """Regular coordinates of points given in the coordinates of a rotated grid (southern pole rotation, no extra angle)."""
    la, lo = np.radians(lat), np.radians(lon)
    x, y, z = np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)
    t, p = np.radians(-(90 + grid['splat'])), np.radians(grid['splon'])
    # tilt about the y axis, then turn to the longitude of the pole
    x1, z1 = np.cos(t) * x + np.sin(t) * z, -np.sin(t) * x + np.cos(t) * z
    x2, y2 = np.cos(p) * x1 - np.sin(p) * y, np.sin(p) * x1 + np.cos(p) * y
    return np.degrees(np.arcsin(np.clip(z1, -1, 1))), np.degrees(np.arctan2(y2, x2))


def check(case, rec):
    grid, rows, cols, mode = case['grid'], case['rows'], case['cols'], case['mode']
    shape = (rows, cols)
    if 'ty' in case:
        lat = grid['lat0'] - np.array(case['ty'], float).reshape(shape) * grid['dlat']
        lon = grid['lon0'] + np.array(case['tx'], float).reshape(shape) * grid['dlon']
        if not case['rotated_target']:
            lat, lon = rotated_to_true(grid, lat, lon)
    else:
        lat, lon = np.array(case['lat'], float).reshape(shape), np.array(case['lon'], float).reshape(shape)
    bad = np.zeros(shape, bool)
    for m in (case['latmask'], case['lonmask']):
        if m is not None:
            bad |= np.array(m, bool).reshape(shape)
    k = 1 if mode == 'nearest' else 4
    with world.World() as w:
        g = world.write_grib(w.p('in.grb'), [dict(grid=grid, values=case['vals'], edition=case['edition'], end=6)])
        src = world.read_grib(g)[0]
        geo = (0.0, 1.0, 0.0, 10.0, 0.0, -1.0)
        maps = {'clone': world.write_pcr(w.p('clone.map'), np.ones(shape), geo)}
        if case['nc']:
            maps['lat'] = maps['lon'] = world.write_nc_map(w.p('t.nc'), np.ones(shape), lat[:, 0], lon[0])
        else:
            maps['lat'] = world.write_pcr(w.p('lat.map'), lat, geo, case['latmask'] and np.array(case['latmask']).reshape(shape))
            maps['lon'] = world.write_pcr(w.p('lon.map'), lon, geo, case['lonmask'] and np.array(case['lonmask']).reshape(shape))
            lat, lon = lat.astype(np.float32).astype(float), lon.astype(np.float32).astype(float)
        c = w.command('c.json', maps, mode, interpolation={'@rotated_target': True} if case['rotated_target'] else {}, outmaps={'@namePrefix': 'o', '@format': case['fmt']})
        got = []
        for tag, flags in (('plain', []), ('parallel', ['-X'])):
            if tag == 'parallel' and not case['parallel']:
                continue
            tab, out = w.p('t' + tag), w.p('out' + tag)
            os.makedirs(tab)
            if tag == 'parallel':
                os.remove(os.path.join(w.conf, 'intertables.json'))
            r = w.run('-c', c, '-i', g, '-o', out, '-N', tab, '-B', *flags)
            expect(r.exc is None and r.status == 0, lambda: f'{tag} run failed: {r}')
            m = w.maps(case['fmt'], out=out)
            expect(m.shape == (1,) + shape, lambda: f'{tag}: maps of shape {m.shape}')
            got.append(m[0])
        if len(got) == 2:
            expect(np.array_equal(got[0], got[1], equal_nan=True), lambda: f'parallel gives {got[1].tolist()}, plain {got[0].tolist()}')
    slat, slon, z = src['lats'], src['lons'], src['values']
    if case['rotated_target']:
        # distances in the rotated coordinates of the grid are the same as on the regular ones
        slat = (grid['lat0'] - np.arange(grid['nj']) * grid['dlat'])[:, None] * np.ones((1, grid['ni']))
        slon = (grid['lon0'] + np.arange(grid['ni']) * grid['dlon'])[None, :] * np.ones((grid['nj'], 1))
    R = 6371229.0
    d = scene.chords(lat, lon, slat, slon) * R
    own = scene.chords(slat, slon, slat, slon) * R
    np.fill_diagonal(own, np.inf)
    spacing = own.min(1).max()
    tie = 1e-9 * R if case['nc'] else 4.0      # metres which the precision of the coordinates does not tell apart
    if case['rotated_target']:
        tie = 60.0        # true coordinates of rotated grids are stored with the precision of the file
    order = np.argsort(d, axis=1, kind='stable')
    ds = np.take_along_axis(d, order, 1)
    valued = certain = 0
    for i in range(rows * cols):
        j = (i // cols, i % cols)
        v, di = got[0][j], ds[i]
        where = f'cell {j} ({lat[j]}, {lon[j]}) with {mode}'
        if bad[j]:
            expect(np.isnan(v), lambda: f'{where} has no coordinates but a value {v!r}')
            continue
        if di[0] > spacing * (1 + 4.0 / src['Nj']) + 2 * tie:
            expect(np.isnan(v), lambda: f'{where} is {v!r}, but the closest source point is at {di[0]} m, and the source spacing is {spacing} m')
            continue
        if np.isnan(v):
            expect(di[0] > spacing - 2 * tie, lambda: f'{where} is missing, but a source point is at {di[0]} m, and the source spacing is {spacing} m')
            continue
        valued += 1
        if mode == 'nearest':
            cand = z[order[i][di <= di[0] + tie]]
            certain += len(cand) == 1
            expect(np.isclose(cand, v, rtol=1e-6, atol=1e-4).any(), lambda: f'{where} is {v!r}, the closest source value is {cand.tolist()} at {di[0]} m')
        else:
            near = z[order[i][di <= di[3] + tie]]
            expect(near.min() - 1e-3 <= v <= near.max() + 1e-3, lambda: f'{where} is {v!r}, not in the range of the four closest source values {near.tolist()}')
            if len(di) > 4 and di[4] - di[3] <= tie:
                continue
            if di[0] <= tie:
                # on a source point
                cand = z[order[i][di <= tie]]
                expect((cand.min() - 0.01 <= v <= cand.max() + 0.01) if len(cand) > 1 or not case['nc'] or case['rotated_target'] else abs(v - cand[0]) < 1e-4, lambda: f'{where} is {v!r}, the value of its source point is {cand.tolist()}')
                certain += 1
                continue
            certain += 1
            wt = 1 / di[:4] ** 2
            want = float((wt * z[order[i][:4]]).sum() / wt.sum())
            tol = 1e-4 + 8 * tie / di[0] * (np.ptp(z[order[i][:4]]) + 1)
            expect(abs(v - want) <= tol, lambda: f'{where} is {v!r}, expected {want!r} from {z[order[i][:4]].tolist()} at {di[:4].tolist()}')
    rec.label(mode, grid['type'] + (' global' if grid['type'] == 'regular_ll' and grid['ni'] * grid['dlon'] >= 360 else ''), 'netCDF target' if case['nc'] else 'PCRaster target', 'large target' if rows > 5 else 'small target',
              *(['cells without coordinates'] if bad.any() else []), *(['too far'] if np.isnan(got[0][~bad]).any() else []), *(['rotated target'] if case['rotated_target'] else []))
    rec.hit(certain >= 2 or certain == 1 and valued < rows * cols)


CHECK = Check(
    'C07', [Sub('search', case_, check, 3600, 100000,
                rule='whole runs on generated grids (regional, global, reduced, rotated, with regular or rotated targets) and targets on, between and far from source points, with and without coordinates, serial and parallel; '
                     'non-trivial: two cells with a certain value, or one and a missing cell')],
    rule='distances between each target cell and all source points; see the sub-check',
    assumptions=['source points whose distance from a cell differs by less than the precision of the maps (4 m in single precision) are equally near',
                 'a cell between one source spacing and one spacing times (1 + 4 / rows of the grid) may be missing or not'], quick_s=60)
