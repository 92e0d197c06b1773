"""Synthetic worlds: GRIB files, PCRaster/netCDF maps, user configuration, runs and read-back.

Nothing here uses pyg2p except the entry points that run it; files are written and read with ecCodes, GDAL and netCDF4 directly.
"""
import contextlib
import itertools
import json
import logging
import os
import pickle
import select
import shutil
import signal
import sys
import time

import eccodes as ec
import netCDF4
import numpy as np
from osgeo import gdal, gdalconst

from .boot import SCRATCH, HarnessError

# as in a run of pyg2p: GDAL raises nothing by itself
gdal.DontUseExceptions()
gdal.PushErrorHandler('CPLQuietErrorHandler')
MV = 9999.0
_counter = itertools.count()

DEFAULT_PARAMETERS = {
    n: {'@description': f'desc {n}', '@shortName': n, '@unit': u, 'Conversion': c}
    for n, u, c in (
        ('2t', 'K', [{'@function': 'x=x-273.15', '@id': 'k2c', '@unit': 'C', '@cutOffNegative': False},
                     {'@function': 'x=x-273.15', '@id': 'k2c_cut', '@unit': 'C', '@cutOffNegative': True},
                     {'@function': 'x=x*2-5', '@id': 'aff', '@unit': 'Z'},
                     {'@function': 'x=x', '@id': 'ident', '@unit': 'K'},
                     {'@function': 'x=x', '@id': 'ident_cut', '@unit': 'K', '@cutOffNegative': True}]),
        ('t', 'K', [{'@function': 'x=x-273.15', '@id': 'k2c', '@unit': 'C', '@cutOffNegative': False}]),
        ('tp', 'm', [{'@function': 'x=x*1000', '@id': 'm2mm', '@unit': 'mm', '@cutOffNegative': False},
                     {'@function': 'x=x*1000', '@id': 'm2mm_cut', '@unit': 'mm', '@cutOffNegative': True}]),
        ('ssrd', 'J', [{'@function': 'x=x/10', '@id': 'ten', '@unit': 'dJ', '@cutOffNegative': True}]),
        ('10u', 'm/s', {'@function': 'x=x+1', '@id': 'one', '@unit': 'm/s'}),
        ('z', 'm', {'@function': 'x=x', '@id': 'ident', '@unit': 'm'}),
    )
}


# ------------------------------------------------------------------ GRIB
def grid_keys(grid):
    """grid: dict(type, ...) -> (sample suffix, keys, number of points)."""
    t = grid['type']
    if t in ('regular_ll', 'rotated_ll'):
        ni, nj = grid['ni'], grid['nj']
        lat0, lon0, dlat, dlon = grid['lat0'], grid['lon0'], grid['dlat'], grid['dlon']
        lon_last = lon0 + (ni - 1) * dlon
        k = dict(Ni=ni, Nj=nj, latitudeOfFirstGridPointInDegrees=float(lat0), latitudeOfLastGridPointInDegrees=float(lat0 - (nj - 1) * dlat),
                 longitudeOfFirstGridPointInDegrees=float(lon0), longitudeOfLastGridPointInDegrees=float(lon_last),
                 iDirectionIncrementInDegrees=float(dlon), jDirectionIncrementInDegrees=float(dlat))
        if t == 'rotated_ll':
            k.update(latitudeOfSouthernPoleInDegrees=float(grid['splat']), longitudeOfSouthernPoleInDegrees=float(grid['splon']))
        return k, ni * nj
    if t == 'reduced_gg':
        return None, int(sum(grid['pl']))
    raise HarnessError(f'grid {grid}')


def make_message(grid, values, shortName='2t', edition=1, stepType='instant', start=0, end=0, date=20200102, time=1200,
                 level=None, number=None, missing=None, bits=24):
    """values: flat list of floats; missing: list of bools or None. Returns a gid."""
    sample = {'regular_ll': 'regular_ll_sfc_grib%d', 'rotated_ll': 'rotated_ll_sfc_grib%d', 'reduced_gg': 'reduced_gg_sfc_grib%d'}[grid['type']] % edition
    gid = ec.codes_grib_new_from_samples(sample)
    keys, n = grid_keys(grid)
    if keys is None:
        ec.codes_set(gid, 'N', len(grid['pl']) // 2)
        ec.codes_set(gid, 'Nj', len(grid['pl']))
        ec.codes_set_array(gid, 'pl', [int(p) for p in grid['pl']])
    else:
        for k, v in keys.items():
            ec.codes_set(gid, k, v)
    if edition == 1 and number is not None:
        ec.codes_set(gid, 'setLocalDefinition', 1)
        ec.codes_set(gid, 'localDefinitionNumber', 1)
    if edition == 2 and number is not None:
        ec.codes_set(gid, 'productDefinitionTemplateNumber', 1 if stepType == 'instant' else 11)
    if level is not None:
        if edition == 1:
            ec.codes_set(gid, 'levelType', 'pl')
        else:
            ec.codes_set(gid, 'typeOfLevel', 'isobaricInhPa')
    ec.codes_set(gid, 'shortName', shortName)
    if level is not None:
        ec.codes_set(gid, 'level', int(level))
    ec.codes_set(gid, 'dataDate', int(date))
    ec.codes_set(gid, 'dataTime', int(time))
    if edition == 2 and number is None and stepType != 'instant':
        ec.codes_set(gid, 'productDefinitionTemplateNumber', 8)
    if edition == 1 or stepType != 'instant':
        ec.codes_set(gid, 'stepType', stepType)
    ec.codes_set(gid, 'stepRange', f'{start}-{end}' if stepType != 'instant' else f'{end}')
    if number is not None:
        ec.codes_set(gid, 'perturbationNumber', int(number))
    vals = np.asarray(values, dtype=float).ravel()
    if vals.size != n:
        raise HarnessError(f'{vals.size} values for {n} points')
    ec.codes_set(gid, 'bitsPerValue', bits)
    if missing is not None and any(missing):
        vals = vals.copy()
        vals[np.asarray(missing, bool)] = MV
        ec.codes_set(gid, 'bitmapPresent', 1)
        ec.codes_set(gid, 'missingValue', MV)
    ec.codes_set_values(gid, vals)
    got = ec.codes_get(gid, 'shortName')
    if got != shortName and not shortName.startswith('~'):
        raise HarnessError(f'asked {shortName} got {got}')
    if (ec.codes_get(gid, 'startStep'), ec.codes_get(gid, 'endStep')) != (start if stepType != 'instant' else end, end):
        raise HarnessError(f'steps {start} {end} {stepType} {edition}')
    return gid


def write_grib(path, messages):
    with open(path, 'wb') as f:
        for m in messages:
            gid = make_message(**m)
            ec.codes_write(gid, f)
            ec.codes_release(gid)
    return path


def read_grib(path):
    """All messages of a file, as read by ecCodes alone, in file order."""
    out = []
    with open(path, 'rb') as f:
        while True:
            gid = ec.codes_grib_new_from_file(f)
            if gid is None:
                break
            d = {k: ec.codes_get(gid, k) for k in ('shortName', 'startStep', 'endStep', 'stepType', 'dataDate', 'dataTime', 'level', 'Nj', 'edition', 'numberOfValues', 'gridType')}
            d['number'] = ec.codes_get(gid, 'perturbationNumber') if ec.codes_is_defined(gid, 'perturbationNumber') else None
            vals = ec.codes_get_double_array(gid, 'values')
            mask = np.zeros(vals.shape, bool)
            if ec.codes_get(gid, 'bitmapPresent'):
                mask = ec.codes_get_array(gid, 'bitmap', int) == 0
            d['values'], d['mask'] = vals, mask
            d['lats'] = ec.codes_get_double_array(gid, 'latitudes')
            d['lons'] = ec.codes_get_double_array(gid, 'longitudes')
            d['radius'] = ec.codes_get(gid, 'radius')
            out.append(d)
            ec.codes_release(gid)
    return out


# ------------------------------------------------------------------ maps
PCR_MV = float(np.finfo(np.float32).min)


def write_pcr(path, array, geo=(0.0, 1.0, 0.0, 10.0, 0.0, -1.0), mask=None):
    """array: 2D; masked cells become no-data. Written as a REAL4 scalar map."""
    a = np.array(array, dtype=np.float32)
    if mask is not None:
        a[np.asarray(mask, bool)] = np.float32(PCR_MV)
    mem = gdal.GetDriverByName('MEM').Create('', a.shape[1], a.shape[0], 1, gdalconst.GDT_Float32)
    mem.SetGeoTransform(geo)
    b = mem.GetRasterBand(1)
    b.SetNoDataValue(PCR_MV)
    b.WriteArray(a)
    out = gdal.GetDriverByName('PCRaster').CreateCopy(path, mem, 0, ['PCRASTER_VALUESCALE=VS_SCALAR'])
    if out is None:
        raise HarnessError(f'cannot write {path}: {gdal.GetLastErrorMsg()}')
    out = None
    mem = None
    aux = path + '.aux.xml'
    if os.path.exists(aux):
        os.unlink(aux)
    return path


def read_pcr(path):
    """(float array with nan for no-data, no-data value, geotransform)."""
    ds = gdal.Open(path)
    if ds is None:
        raise ValueError(f'not a map: {path}')
    b = ds.GetRasterBand(1)
    a = b.ReadAsArray().astype(float)
    mv = b.GetNoDataValue()
    raw = a.copy()
    a[raw == mv] = np.nan
    geo = ds.GetGeoTransform()
    driver = ds.GetDriver().ShortName
    ds = None
    return a, mv, geo, driver


def write_nc_map(path, array, lats, lons, mask=None, name='area', labels=('lat', 'lon'), fill=-9999.0):
    nc = netCDF4.Dataset(path, 'w', format='NETCDF4_CLASSIC')
    nc.createDimension(labels[0], len(lats))
    nc.createDimension(labels[1], len(lons))
    v = nc.createVariable(labels[0], 'f8', (labels[0],))
    v[:] = lats
    v = nc.createVariable(labels[1], 'f8', (labels[1],))
    v[:] = lons
    v = nc.createVariable(name, 'f8', labels, fill_value=fill)
    a = np.array(array, float)
    if mask is not None:
        a[np.asarray(mask, bool)] = fill
    v.missing_value = fill
    v[:] = a
    nc.close()
    return path


def read_nc(path, var):
    nc = netCDF4.Dataset(path)
    v = nc.variables[var]
    out = dict(values=np.ma.filled(np.ma.asarray(v[:]).astype(float), np.nan), attrs={k: v.getncattr(k) for k in v.ncattrs()}, dtype=v.dtype.str[1:],
               time=np.array(nc.variables['time'][:]), time_units=nc.variables['time'].units, time_calendar=nc.variables['time'].calendar,
               lat=np.ma.filled(nc.variables['lat'][:].astype(float), np.nan), lon=np.ma.filled(nc.variables['lon'][:].astype(float), np.nan), dims=v.dimensions, format=nc.data_model)
    v.set_auto_maskandscale(False)
    out['raw'] = np.array(v[:])
    nc.close()
    return out


# ------------------------------------------------------------------ user configuration and runs
class Result:
    def __init__(self, status, exc, log):
        self.status, self.exc, self.log = status, exc, log

    def __repr__(self):
        return f'Result(status={self.status}, exc={self.exc!r}, log={self.log[-3:]!r})'


class _Collect(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.lines = []

    def emit(self, record):
        try:
            self.lines.append((record.levelname, record.getMessage()))
        except Exception as e:  # a broken log call is not our business here
            self.lines.append((record.levelname, repr(e)))


class World:
    """One case: a private folder, a fresh user configuration, and helpers to run pyg2p in it."""

    def __init__(self, parameters=None):
        self.home = os.environ['HOME']
        self.conf = os.path.join(self.home, '.pyg2p')
        self.dir = os.path.join(SCRATCH, 'work', f'c{os.getpid()}_{next(_counter)}')
        os.makedirs(self.dir)
        self.out = self.p('out')
        self.tables = self.p('tables')
        self.geos = self.p('geos')
        for d in (self.out, self.tables, self.geos):
            os.makedirs(d)
        shutil.rmtree(self.conf, ignore_errors=True)
        os.makedirs(self.conf)
        self.write_conf('paths.conf', {'INTERTABLES': self.tables, 'GEOPOTENTIALS': self.geos, 'WORLD': self.dir})
        self.write_json('parameters.json', parameters or DEFAULT_PARAMETERS)
        os.chdir(self.dir)

    def p(self, *a):
        return os.path.join(self.dir, *a)

    def write_conf(self, name, d):
        with open(os.path.join(self.conf, name), 'w') as f:
            for k, v in d.items():
                f.write(f'{k}={v}\n')

    def write_json(self, name, d):
        with open(os.path.join(self.conf, name), 'w') as f:
            json.dump(d, f)

    def close(self):
        os.chdir(SCRATCH)
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- target maps
    def target(self, lats, lons, clone_mask=None, coord_mask=None, netcdf=False, dem=None, geo=None, tag=''):
        """lats, lons: 2D arrays. Writes lat/lon/clone maps and returns their paths."""
        lats, lons = np.asarray(lats, float), np.asarray(lons, float)
        geo = geo or (float(lons.flat[0]), 1.0, 0.0, float(lats.flat[0]), 0.0, -1.0)
        d = {}
        clone = np.ones(lats.shape) if dem is None else np.asarray(dem, float)
        d['clone'] = write_pcr(self.p(f'clone{tag}.map'), clone, geo, clone_mask)
        if netcdf:
            d['lat'] = d['lon'] = write_nc_map(self.p(f'target{tag}.nc'), clone, lats[:, 0], lons[0, :])
        else:
            d['lat'] = write_pcr(self.p(f'lat{tag}.map'), lats, geo, coord_mask)
            d['lon'] = write_pcr(self.p(f'lon{tag}.map'), lons, geo, coord_mask)
        return d

    def command(self, path, maps, mode='grib_nearest', shortName='2t', parameter=None, outmaps=None, aggregation=None, interpolation=None, name='x'):
        ex = {'@name': name,
              'Parameter': {'@shortName': shortName, **(parameter or {})},
              'OutMaps': {'@cloneMap': maps['clone'], '@unitTime': 24, **(outmaps or {}),
                          'Interpolation': {'@latMap': maps['lat'], '@lonMap': maps['lon'], '@mode': mode, **(interpolation or {})}}}
        if aggregation:
            ex['Aggregation'] = aggregation
        with open(self.p(path), 'w') as f:
            json.dump({'Execution': ex}, f)
        return self.p(path)

    def run(self, *argv):
        return run_cli([str(a) for a in argv])

    def pcr_outputs(self, out=None):
        """{file name: array} of the PCRaster maps in the output folder."""
        out = out or self.out
        return {f: read_pcr(os.path.join(out, f))[0] for f in sorted(os.listdir(out)) if not f.endswith('.aux.xml')}

    def maps(self, fmt='pcraster', out=None, var='o'):
        """The maps of the output folder in order, as one array (steps, rows, columns) with nan for missing."""
        out = out or self.out
        if fmt == 'netcdf':
            f = [x for x in sorted(os.listdir(out)) if x.endswith('.nc')]
            if len(f) != 1:
                return np.empty((0, 0, 0))
            return read_nc(os.path.join(out, f[0]), var)['values']
        m = self.pcr_outputs(out)
        return np.array([m[k] for k in sorted(m)]) if m else np.empty((0, 0, 0))


@contextlib.contextmanager
def collected_log():
    h = _Collect()
    root = logging.getLogger()
    root.addHandler(h)
    try:
        yield h
    finally:
        root.removeHandler(h)


def run_cli(argv):
    from pyg2p.main import pyg2p_exe
    with collected_log() as h:
        try:
            status, exc = pyg2p_exe(list(argv)), None
        except HarnessError:
            raise
        except SystemExit as e:
            status, exc = None, e
        except Exception as e:
            status, exc = None, e
    return Result(status, exc, h.lines)


# ------------------------------------------------------------------ children
def forked(fn, timeout=60):
    """fn() in a child process: ('ok', result), ('died', signal or exit code) or ('hang', None). The child and what it started are ended."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.close(r)
            try:
                res = pickle.dumps(('ok', fn()))
            except BaseException as e:
                res = pickle.dumps(('raised', f'{type(e).__name__}: {e}'))
            with os.fdopen(w, 'wb') as f:
                f.write(res)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data, end = b'', time.monotonic() + timeout
    with os.fdopen(r, 'rb', 0) as f:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([f], [], [], left)[0]:
                data = None
                break
            b = f.read(1 << 16)
            if not b:
                break
            data += b
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    status = os.waitpid(pid, 0)[1]
    if data is None:
        return 'hang', None
    if not data:
        return 'died', status
    return pickle.loads(data)


NOBODY = 65534


def give_away(w):
    """The files of a world to an unprivileged user, who can reach them."""
    for top in (w.dir, w.conf):
        for a, dirs, files in os.walk(top):
            for x in [a] + [os.path.join(a, f) for f in files]:
                os.chown(x, NOBODY, NOBODY)
    for top in (w.dir, w.home, SCRATCH):
        while top not in ('/', '/tmp'):
            top = os.path.dirname(top)
            if top not in ('/', '/tmp') and os.stat(top).st_uid == os.getuid():
                os.chmod(top, os.stat(top).st_mode | 0o055)
    for x in (w.home, SCRATCH):
        os.chmod(x, os.stat(x).st_mode | 0o055)


def become_nobody():
    os.setgroups([])
    os.setresgid(NOBODY, NOBODY, NOBODY)
    os.setresuid(NOBODY, NOBODY, NOBODY)


def snapshot(folder, skip=()):
    """{path: bytes (None for folders)} of everything in a folder, but some of its entries."""
    d = {}
    for a, dirs, files in os.walk(folder):
        if a == folder:
            dirs[:] = [x for x in dirs if x not in skip]
            files = [x for x in files if x not in skip]
        for f in dirs:
            d[os.path.join(a, f)] = None
        for f in files:
            p = os.path.join(a, f)
            if os.path.islink(p) or not os.path.isfile(p):
                d[p] = 'special'
                continue
            with open(p, 'rb') as h:
                d[p] = h.read()
    return d


def changes(before, after):
    return sorted(k for k in set(before) | set(after) if k not in before or k not in after or before[k] != after[k])
