"""Generated source grids and targets (plain JSON) and their geometry."""
import numpy as np
from hypothesis import strategies as st

from .boot import HarnessError

SCIPY_MODES = ('nearest', 'invdist', 'bilinear', 'triangulation', 'bilinear_delaunay')
GRIB_MODES = ('grib_nearest', 'grib_invdist')


@st.composite
def regular_grid(draw, min_side=2, max_side=6, square=False, lon0s=(5.0, 0.0, -3.0, 177.0, 200.0, 100.0, -10.5), lat0s=(50.0, 60.0, 20.5, 3.0, -20.0, -45.0)):
    d = draw(st.sampled_from([1.0, 0.5, 0.25, 2.0]))
    r = 1.0 if square else draw(st.sampled_from([1.0, 1.0, 1.5, 0.8]))
    return dict(type='regular_ll', ni=draw(st.integers(min_side, max_side)), nj=draw(st.integers(min_side, max_side)), lat0=draw(st.sampled_from(lat0s)),
                lon0=draw(st.sampled_from(lon0s)), dlat=d, dlon=d * r)


def n_points(grid):
    return int(sum(grid['pl'])) if grid['type'] == 'reduced_gg' else grid['ni'] * grid['nj']


def grid_latlons(grid):
    """1D lats, lons (as generated: not wrapped) of a regular grid."""
    if grid['type'] != 'regular_ll':
        raise HarnessError(grid)
    la = grid['lat0'] - np.arange(grid['nj']) * grid['dlat']
    lo = grid['lon0'] + np.arange(grid['ni']) * grid['dlon']
    lo, la = np.meshgrid(lo, la)
    return la.ravel(), lo.ravel()


def wrap180(lon):
    return (np.asarray(lon, float) + 180.0) % 360.0 - 180.0


# a target cell is given relative to the grid: row/column fractions in units of grid spacing from the first point
def frac(n):
    """A coordinate in grid units over 0..n-1, on a point, at a generic position between two, or outside."""
    inside = st.tuples(st.integers(0, max(n - 2, 0)), st.sampled_from([0.25, 0.3125, 0.625, 0.75, 0.125, 0.8125])).map(lambda t: t[0] + t[1])
    return st.one_of(st.integers(0, n - 1).map(float), inside, inside)


@st.composite
def target(draw, grid, max_side=4, outside=True, masks=True, clone=True, netcdf=None, generic=False, min_side=1):
    """dict(rows, cols, ty, tx, coord_mask, clone_mask, netcdf): ty, tx rows*cols positions in grid units."""
    rows, cols = draw(st.integers(min_side, max_side)), draw(st.integers(min_side, max_side))
    nc = draw(st.integers(0, 3)) == 0 if netcdf is None else netcdf

    def pos(n):
        base = frac(n) if not generic else st.tuples(st.integers(0, max(n - 2, 0)), st.sampled_from([0.25, 0.3125, 0.625, 0.75, 0.125, 0.8125])).map(lambda t: t[0] + t[1])
        if outside:
            return st.one_of(base, base, base, base, st.sampled_from([-2.25, -7.3, n + 2.4, n + 9.1]))
        return base
    if nc or draw(st.booleans()):
        ys = draw(st.lists(pos(grid['nj']), min_size=rows, max_size=rows, unique=True))
        xs = draw(st.lists(pos(grid['ni']), min_size=cols, max_size=cols, unique=True))
        ys, xs = sorted(ys), sorted(xs)
        ty, tx = [y for y in ys for _ in xs], [x for _ in ys for x in xs]
    else:
        ty = draw(st.lists(pos(grid['nj']), min_size=rows * cols, max_size=rows * cols))
        tx = draw(st.lists(pos(grid['ni']), min_size=rows * cols, max_size=rows * cols))
    n = rows * cols
    return dict(rows=rows, cols=cols, ty=ty, tx=tx, netcdf=nc,
                coord_mask=draw(st.lists(st.booleans(), min_size=n, max_size=n).filter(lambda m: not all(m))) if masks and not nc and n > 1 and draw(st.integers(0, 2)) == 0 else None,
                clone_mask=draw(st.lists(st.booleans(), min_size=n, max_size=n)) if clone and draw(st.integers(0, 2)) == 0 else None)


def target_latlons(grid, tgt):
    """2D (lats, lons); latitudes stay within the poles, longitudes in [-180, 180)."""
    shape = (tgt['rows'], tgt['cols'])
    la = np.clip(grid['lat0'] - np.array(tgt['ty'], float).reshape(shape) * grid['dlat'], -89.0, 89.0)
    lo = wrap180(grid['lon0'] + np.array(tgt['tx'], float).reshape(shape) * grid['dlon'])
    return la, lo


def make_target(w, grid, tgt, dem=None, tag='', netcdf=None):
    """Writes the maps; returns (paths, lats, lons as pyg2p reads them, coord mask, clone mask)."""
    la, lo = target_latlons(grid, tgt)
    nc = tgt['netcdf'] if netcdf is None else netcdf
    cm = None if tgt['coord_mask'] is None else np.array(tgt['coord_mask'], bool).reshape(la.shape)
    cl = None if tgt['clone_mask'] is None else np.array(tgt['clone_mask'], bool).reshape(la.shape)
    maps = w.target(la, lo, clone_mask=cl, coord_mask=cm, netcdf=nc, dem=dem, tag=tag)
    if not nc:
        la, lo = la.astype(np.float32).astype(float), lo.astype(np.float32).astype(float)
    z = np.zeros(la.shape, bool)
    return maps, la, lo, z if cm is None else cm, z if cl is None else cl


def xyz(lats, lons):
    a, o = np.radians(np.asarray(lats, float)), np.radians(np.asarray(lons, float))
    return np.stack([np.cos(a) * np.cos(o), np.cos(a) * np.sin(o), np.sin(a)], axis=-1)


def chords(tlats, tlons, slats, slons):
    """Chord lengths on the unit sphere, targets x sources."""
    t, s = xyz(np.ravel(tlats), np.ravel(tlons)), xyz(np.ravel(slats), np.ravel(slons))
    return np.sqrt(((t[:, None, :] - s[None, :, :]) ** 2).sum(-1))
