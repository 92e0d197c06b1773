"""C09 bilinear, triangulation and bilinear_delaunay: convex, position-reproducing and exact on regular grids."""
import gzip
import os

import numpy as np
from hypothesis import strategies as st

from .. import scene, world
from ..engine import Check, Sub, expect
from . import c07, c10

MODES = ('bilinear', 'triangulation', 'bilinear_delaunay')


@st.composite
def case_(draw):
    case = draw(c10.case_())
    case['mode'] = draw(st.sampled_from(MODES))
    g = case['grid']
    if g['type'] == 'rotated_ll':
        n = case['rows'] * case['cols']
        case['ty'] = draw(st.lists(st.one_of(scene.frac(g['nj']), st.floats(-2, g['nj'] + 1, width=32)), min_size=n, max_size=n))
        case['tx'] = draw(st.lists(st.one_of(scene.frac(g['ni']), st.floats(-2, g['ni'] + 1, width=32)), min_size=n, max_size=n))
        case['nc'] = False
    elif g['type'] == 'reduced_gg':
        g['pl'] = draw(st.sampled_from([[20, 24, 28, 32, 32, 28, 24, 20], [16, 20, 24, 24, 20, 16], [12, 18, 20, 20, 18, 12]]))
        case['vals'] = [(i * 37) % 211 for i in range(scene.n_points(g))]
    elif not case['nc'] and draw(st.integers(0, 9)) == 0:
        k = draw(st.integers(10, 30))
        case['lat'] = [float(np.clip(a + 0.001 * j, -90, 90)) for j in range(k) for a in case['lat']]
        case['lon'] = [o + 0.001 * j for j in range(k) for o in case['lon']]
        for m in ('latmask', 'lonmask'):
            case[m] = case[m] and case[m] * k
        case['rows'] *= k
    case['parallel'] = draw(st.integers(0, 2)) == 0
    return case


def merc(a):
    return np.log(np.tan(np.pi / 4 + np.radians(a) / 2))


def cell_of(grid, a, o):
    """(y, x, wraps, ) position in grid units of a point; x in [0, ni) or beyond."""
    wraps = abs(grid['ni'] * grid['dlon'] - 360) < 1e-6
    y = (grid['lat0'] - a) / grid['dlat']
    x = ((o - grid['lon0'] + 1e-7) % 360 - 1e-7) / grid['dlon']
    if not wraps and x > (360 / grid['dlon'] + grid['ni'] - 1) / 2:
        x -= 360 / grid['dlon']
    return y, x, wraps


def textbook(mode, grid, z, a, o):
    """Admissible values at a point inside a regular grid."""
    ni, nj = grid['ni'], grid['nj']
    y, x, wraps = cell_of(grid, a, o)
    j = min(max(int(np.floor(y)), 0), nj - 2)
    i = int(np.floor(x))
    if not wraps:
        i = min(max(i, 0), ni - 2)
    la = [grid['lat0'] - k * grid['dlat'] for k in (j, j + 1)]
    c = [z[j, i % ni], z[j, (i + 1) % ni], z[j + 1, i % ni], z[j + 1, (i + 1) % ni]]
    fx = x - i
    if mode != 'triangulation':
        fy = y - j
        return c, [(1 - fy) * ((1 - fx) * c[0] + fx * c[1]) + fy * ((1 - fx) * c[2] + fx * c[3])]
    fy = (merc(la[0]) - merc(a)) / (merc(la[0]) - merc(la[1]))
    one = c[0] + fx * (c[1] - c[0]) + fy * (c[2] - c[0]) if fx + fy <= 1 else c[3] + (1 - fx) * (c[2] - c[3]) + (1 - fy) * (c[1] - c[3])
    two = c[0] + fx * (c[1] - c[0]) + fy * (c[3] - c[1]) if fy <= fx else c[0] + fy * (c[2] - c[0]) + fx * (c[3] - c[2])
    return c, [one, two]


def check(case, rec):
    grid, rows, cols, mode = case['grid'], case['rows'], case['cols'], case['mode']
    shape = (rows, cols)
    if 'ty' in case:
        lat, lon = c07.rotated_to_true(grid, grid['lat0'] - np.array(case['ty'], float).reshape(shape) * grid['dlat'], grid['lon0'] + np.array(case['tx'], float).reshape(shape) * grid['dlon'])
    else:
        lat, lon = np.array(case['lat'], float).reshape(shape), np.array(case['lon'], float).reshape(shape)
    bad = np.zeros(shape, bool)
    for m in (case['latmask'], case['lonmask']):
        if m is not None:
            bad |= np.array(m, bool).reshape(shape)
    n = len(case['vals'])
    with world.World() as w:
        g = world.write_grib(w.p('in.grb'), [dict(grid=grid, values=case['vals'], edition=case['edition'], end=6),
                                             dict(grid=grid, values=[7.0] * n, edition=case['edition'], end=12)])
        src = world.read_grib(g)
        geo = (0.0, 1.0, 0.0, 10.0, 0.0, -1.0)
        maps = {'clone': world.write_pcr(w.p('clone.map'), np.ones(shape), geo)}
        if case['nc']:
            maps['lat'] = maps['lon'] = world.write_nc_map(w.p('t.nc'), np.ones(shape), lat[:, 0], lon[0])
        else:
            maps['lat'] = world.write_pcr(w.p('lat.map'), lat, geo, case['latmask'] and np.array(case['latmask']).reshape(shape))
            maps['lon'] = world.write_pcr(w.p('lon.map'), lon, geo, case['lonmask'] and np.array(case['lonmask']).reshape(shape))
            lat, lon = lat.astype(np.float32).astype(float), lon.astype(np.float32).astype(float)
        c = w.command('c.json', maps, mode, outmaps={'@namePrefix': 'o', '@format': case['fmt']})
        res = []
        for tag, flags in (('plain', []), ('parallel', ['-X'])):
            if tag == 'parallel' and not case['parallel']:
                continue
            tab, out = w.p('t' + tag), w.p('out' + tag)
            os.makedirs(tab)
            if tag == 'parallel':
                os.remove(os.path.join(w.conf, 'intertables.json'))
            r = w.run('-c', c, '-i', g, '-o', out, '-N', tab, '-B', *flags)
            expect(r.exc is None and r.status == 0, lambda: f'{tag} run failed: {r}')
            m = w.maps(case['fmt'], out=out)
            expect(m.shape == (2,) + shape, lambda: f'{tag}: maps of shape {m.shape}')
            res.append(m)
        if len(res) == 2:
            expect(np.array_equal(res[0], res[1], equal_nan=True), lambda: f'parallel gives {res[1].tolist()}, plain {res[0].tolist()}')
        f = os.listdir(w.p('tplain'))
        expect(len(f) == 1, lambda: f'tables {f}')
        with gzip.open(os.path.join(w.p('tplain'), f[0])) as fh:
            t = np.load(fh)
        weights, indexes = t['coeffs'], t['indexes']
    got, const = res[0]
    slat, slon, z = src[0]['lats'], src[0]['lons'], src[0]['values']
    regular = grid['type'] == 'regular_ll'
    zz = z.reshape(grid['nj'], grid['ni']) if regular else None
    eps = 1e-9 if case['nc'] else 4e-6
    span = float(np.ptp(z)) + 1
    inner = exact = outer = missing_inside = 0
    for k in range(rows * cols):
        j = (k // cols, k % cols)
        v, a, o = got[j], lat[j], lon[j]
        where = f'cell {j} ({a!r}, {o!r}) with {mode}'
        expect(np.isnan(v) == np.isnan(const[j]), lambda: f'{where}: missing in one map and not in another: {v!r} {const[j]!r}')
        if bad[j]:
            expect(np.isnan(v), lambda: f'{where}: no coordinates, but {v!r}')
            continue
        if not np.isnan(v):
            # any cell with a value
            wk, ik = weights[k], indexes[k]
            used = (wk != 0) & (ik < n)
            expect((wk[used] >= -1e-6).all() and (wk <= 1 + 1e-6).all() and abs(wk[used].sum() - 1) < 1e-6, lambda: f'{where}: weights {wk.tolist()} of {ik.tolist()}')
            expect(abs(const[j] - 7.0) < 1e-4, lambda: f'{where}: constant 7 becomes {const[j]!r}')
            zs = z[ik[used]]
            expect(zs.min() - 1e-5 * span <= v <= zs.max() + 1e-5 * span, lambda: f'{where}: {v!r} is not in the range of its source values {zs.tolist()}')
            expect(abs(v - float((wk[used] * zs).sum())) < 1e-5 * span, lambda: f'{where}: {v!r} is not the combination of {zs.tolist()} with weights {wk[used].tolist()}')
        if regular:
            y, x, wraps = cell_of(grid, a, o)
            nj, ni = grid['nj'], grid['ni']
            ey, ex = eps / grid['dlat'] + 1e-9, eps / grid['dlon'] + 1e-9
            by, bx = ey + 1e-3, ex + 1e-3      # strip along the border, missing or not
            if y < -by or y > nj - 1 + by:
                if wraps:
                    continue            # polar caps of global grids
                expect(np.isnan(v), lambda: f'{where}: {v!r}, outside the source area (row {y})')
                outer += 1
                continue
            if not wraps and (x < -bx or x > ni - 1 + bx):
                expect(np.isnan(v), lambda: f'{where}: {v!r}, outside the source area (column {x})')
                outer += 1
                continue
            if y < 0 or y > nj - 1 or (not wraps and (x < 0 or x > ni - 1)):
                if np.isnan(v):
                    continue            # outside by less than the precision of maps
                if y < -ey or y > nj - 1 + ey or (not wraps and (x < -ex or x > ni - 1 + ex)):
                    continue
                y = min(max(y, 0), nj - 1)
            if any(abs(abs(grid['lat0'] - r * grid['dlat']) - 90) < 1e-6 for r in (int(np.floor(y - 1e-5)), int(round(y)), int(np.ceil(y + 1e-5)))):
                continue                # next to a row of points on the pole
            on_point = abs(y - round(y)) < ey and abs(x - round(x)) < ex
            cs, want = textbook(mode, grid, zz, a, o)
            if np.isnan(v):
                own = scene.chords(slat, slon, slat, slon)
                np.fill_diagonal(own, np.inf)
                if scene.chords(np.array([a]), np.array([o]), slat, slon).min() > own.min(1).max() * (1 - 1e-6):
                    continue            # on elongated cells: farther than the spacing of the source
                expect(False, lambda: f'{where}: missing, but inside the source area (row {y}, column {x}), expected {want}')
            inner += 1
            if on_point:
                exact += 1
                p = zz[int(round(y)), int(round(x)) % ni]
                expect(abs(v - p) <= 1e-4 * span, lambda: f'{where}: {v!r} on the source point of value {p!r}')
            expect(min(abs(v - x_) for x_ in want) <= 2e-5 * span + (1e-3 * span if on_point else 0), lambda: f'{where}: {v!r} at row {y}, column {x} of {cs}, expected {want}')
        elif grid['type'] == 'reduced_gg' and not slat.min() <= a <= slat.max():
            continue                # polar caps
        elif not np.isnan(v):
            inner += 1
            wk, ik = weights[k], indexes[k]
            used = (wk != 0) & (ik < n)
            pa = float((wk[used] * slat[ik[used]]).sum())
            po = float((wk[used] * scene.wrap180(slon[ik[used]] - o)).sum())
            tol = 2e-3
            # barycentric in projected latitudes
            pm = float((wk[used] * merc(slat[ik[used]])).sum())
            ok_lat = abs(pa - a) < tol or mode != 'bilinear' and abs(pm - merc(a)) < 1e-4
            if mode == 'bilinear_delaunay':
                # cells are found in projected latitudes: near a slanted side they can be out of it on true ones
                tol = max(tol, 0.03 * float(np.ptp(scene.wrap180(slon[ik] - o))))
            expect(ok_lat and abs(po) < tol, lambda: f'{where}: the weights {wk.tolist()} of source points {[(float(slat[q]), float(slon[q])) for q in ik[used]]} give ({pa}, {o + po})')
        else:
            missing_inside += 1
    rec.label(mode, grid['type'] + (' global' if regular and grid['ni'] * grid['dlon'] >= 360 else ''), 'netCDF target' if case['nc'] else 'PCRaster target',
              *(['outside'] if outer else []), *(['on a source point'] if exact else []), *(['cells without coordinates'] if bad.any() else []))
    rec.hit(inner >= 2 or inner and outer)


CHECK = Check(
    'C09', [Sub('cells', case_, check, 2400, 60000,
                rule='whole runs of the three modes on generated grids (regional, global, reduced, rotated) and targets on, between and outside source points, serial and parallel, with a constant and a generic field; '
                     'non-trivial: two cells with values, or a value and a cell outside the area')],
    rule='weights of the stored table and values of the maps for each cell; see the sub-check',
    assumptions=['cells farther from the source points than these are from each other (elongated source cells) may be missing', 'cells next to a row of source points on the pole, and beyond the last row of a global grid, are only required to be missing or convex',
                 'triangulation is barycentric in the projection of the code (latitudes in Mercator projection), along either diagonal of a source cell'], quick_s=60)
