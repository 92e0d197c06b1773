"""C14 netCDF output."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import aggr, world
from ..engine import Check, Sub, expect
from . import c13

INTS = {'i1': (-126, 127), 'i2': (-32766, 32767), 'i4': (-2147483646, 2147483647), 'i8': (-2 ** 53, 2 ** 53), 'u1': (0, 254), 'u2': (0, 65534), 'u4': (0, 4294967294), 'u8': (0, 2 ** 53)}
UNITS = {None: 'K', 'k2c': 'C', 'aff': 'Z', 'ident': 'K', 'k2c_cut': 'C'}


@st.composite
def case_(draw):
    case = draw(c13.fields_case())
    fmt = draw(st.sampled_from([None, 'f8', 'f4', 'f8', 'f4', 'i2', 'i4', 'i1', 'i8', 'u1', 'u2', 'u4', 'u8']))
    case['ix'] = sorted(set(case['ix']))
    case['iy'] = sorted(set(case['iy']))
    r = len(case['ix']) * len(case['iy'])
    for m in ('clone_mask', 'coord_mask'):
        case[m] = case[m] and (case[m] * r)[:r]
        if m == 'coord_mask' and case[m] and all(case[m]):
            case[m] = None
    case.update(vf=fmt, scale=draw(st.sampled_from([None, None, 1.0, 0.1, 0.5, 0.01, 10.0, 3.0, 100.0])), offset=draw(st.sampled_from([None, None, 0.0, 100.0, -273.15, 5.5, -1000.0])),
                vmin=draw(st.sampled_from([None, None, 'q', 0.0, -5.0])), vmax=draw(st.sampled_from([None, None, 'q', 300.0, 50.5])),
                prefix=draw(st.sampled_from(['o', 'pre', 'T24', 'a_b', 'x1'])), by_json=draw(st.lists(st.booleans(), min_size=7, max_size=7)), clone_nc=draw(st.booleans()), q=draw(st.sampled_from([0.1, 0.25, 0.75, 0.9])), again=draw(st.integers(0, 3)) == 0)
    return case


def check(case, rec):
    with world.World() as w:
        s = c13.setup(w, case, case['clone_nc'])
        if s is None:
            rec.label('skipped: no windows')
            return
        g, maps, want, cl, lats, lons = s
        keys = sorted(want)
        X = np.array([aggr.split(want[k])[0] for k in keys])
        M = np.array([aggr.split(want[k])[1] | cl for k in keys])
        vf, scale, offset = case['vf'] or 'f8', case['scale'], case['offset']
        good = X[~M]
        sc, off = 1.0 if scale is None else scale, 0.0 if offset is None else offset
        if vf in INTS and good.size:
            # scale and offset such that all the values can be stored
            lo, hi = INTS[vf]
            if vf[0] == 'u':
                off = offset = float(np.floor(good.min() - 1))
            while (good.max() - off) / sc > hi or (good.min() - off) / sc < lo:
                sc *= 10
                if sc > 1e9:
                    rec.label('skipped: out of the range of the format')
                    return
                scale = sc
        # values written as they are: a limit can be exactly one of them, and it is valid
        exact = vf == 'f8' and not case['kind'] and case['conv'] in (None, 'ident') and case['mode'] in ('nearest', 'grib_nearest') and sc == 1 and off == 0
        lim = {}
        for k, q in (('vmin', case['q']), ('vmax', 1 - case['q'])):
            v = case[k]
            if v == 'q':
                v = (float(np.sort(good)[int(q * good.size)]) if exact else float(np.round(np.quantile(good, q), 3))) if good.size else 1.0
            lim[k] = v
        if lim['vmin'] is not None and lim['vmax'] is not None and lim['vmin'] > lim['vmax']:
            lim['vmin'], lim['vmax'] = lim['vmax'], lim['vmin']
        if vf in INTS:
            # limits are stored in the value format: they have to be storable
            for k in lim:
                if lim[k] is not None and not INTS[vf][0] <= (lim[k] - off) / sc <= INTS[vf][1]:
                    lim[k] = None
        om, argv = {'@unitTime': case['unit']}, []
        for i, (key, opt, v) in enumerate((('@namePrefix', '-n', case['prefix']), ('@scaleFactor', '-S', scale), ('@offset', '-O', offset), ('@validMin', '-vm', lim['vmin']), ('@validMax', '-vM', lim['vmax']), ('@valueFormat', '-vf', case['vf']), ('@format', '-F', 'netcdf'))):
            if v is None:
                continue
            if case['by_json'][i] or isinstance(v, float) and v < 0:
                om[key] = v
            else:
                argv += [opt, v]
        par = {'@applyConversion': case['conv']} if case['conv'] else None
        c = w.command('c.json', maps, case['mode'], parameter=par, outmaps=om, aggregation={'@step': case['a'], '@type': case['kind']} if case['kind'] else None)
        for _ in range(2 if case['again'] else 1):
            r = w.run('-c', c, '-i', g, '-o', w.out, '-B', *argv)
            expect(r.exc is None and r.status == 0, lambda: f'run failed: {r}')
        name = f'{case["prefix"]}_{case["kind"]}.nc'
        expect(os.listdir(w.out) == [name], lambda: f'files {os.listdir(w.out)}, expected {name}')
        nc = world.read_nc(os.path.join(w.out, name), case['prefix'])
        v, at = nc['values'], nc['attrs']
        expect(v.shape == X.shape, lambda: f'values of shape {v.shape}, expected {X.shape} (time, lat, lon)')
        expect(nc['dims'] == ('time', 'lat', 'lon'), lambda: f'dimensions {nc["dims"]}')
        expect(nc['time'].tolist() == [k[1] for k in keys], lambda: f'times {nc["time"].tolist()}, expected {[k[1] for k in keys]}')
        expect(nc['dtype'] == vf, lambda: f'value format {nc["dtype"]}, expected {vf}')
        expect(at.get('units') == UNITS[case['conv']] and at.get('long_name') == 'desc 2t' and at.get('standard_name') == case['prefix'], lambda: f'attributes {at}')
        expect(np.isclose(float(at['scale_factor']), sc, rtol=1e-12) and np.isclose(float(at['add_offset']), off, rtol=1e-12), lambda: f'scale and offset {at["scale_factor"]} {at["add_offset"]}, expected {sc} {off}')
        expect('_FillValue' in at and at['_FillValue'] == at.get('missing_value'), lambda: f'fill value {at.get("_FillValue")} {at.get("missing_value")}')
        la, lo = lats[:, 0], lons[0]
        if not case['nc_target']:
            la, lo = la.astype(np.float32).astype(float), lo.astype(np.float32).astype(float)
            if case['coord_mask']:
                bad = np.array(case['coord_mask'], bool).reshape(lats.shape)
                la, lo = np.where(bad[:, 0], np.nan, la), np.where(bad[0], np.nan, lo)
        for what, have, need in (('latitudes', nc['lat'], la), ('longitudes', nc['lon'], lo)):
            ok = ~np.isnan(need)
            expect(have.shape == need.shape and (have[ok] == need[ok]).all(), lambda: f'{what} {have.tolist()}, the target has {need.tolist()}')
        # precision of the format
        big = np.maximum(np.abs(X), abs(off)) + 1
        prec = sc * 0.5000001 + 1e-9 * big if vf in INTS else (np.abs(X - off) + np.abs(off)) * (2e-7 if vf == 'f4' else 1e-14) + (1e-4 if case['mode'] == 'invdist' else 1e-6 if case['kind'] else 1e-9)
        out, sure = M.copy(), np.ones(X.shape, bool)
        for k, sign in (('vmin', -1), ('vmax', 1)):
            if lim[k] is not None:
                d = (X - lim[k]) * sign
                out |= d > 0
                sure &= M | (np.abs(d) > prec) | exact
        bad = sure & (np.isnan(v) != out)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            expect(False, lambda: f'cell {i} is {v[i]!r}, computed {"missing" if M[i] else repr(X[i])}, valid range {lim}')
        ok = ~np.isnan(v) & ~out
        off_by = np.abs(v - X)
        bad = ok & ~(off_by <= prec)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            expect(False, lambda: f'cell {i} is {v[i]!r}, computed {X[i]!r} (format {vf}, scale {sc}, offset {off})')
        # cells of the file which are not missing are stored as numbers other than the fill value, missing ones as it
        raw_missing = (nc['raw'] == at['_FillValue']) | (np.isnan(nc['raw'].astype(float)))
        expect((raw_missing[M]).all(), lambda: f'missing cells stored as {nc["raw"][M].tolist()}, fill value {at["_FillValue"]}')
    rec.label(*(['a value exactly on a limit'] if exact and good.size and any(x in good for x in lim.values() if x is not None) else []), vf, case['kind'] or 'no aggregation', 'netCDF clone' if case['clone_nc'] else 'PCRaster clone', *(['valid range'] if any(x is not None for x in lim.values()) else []), *(['scaled'] if scale not in (None, 1.0) else []),
              *(['missing'] if M.any() else []), 'netCDF target' if case['nc_target'] else 'PCRaster target')
    rec.hit(X.shape[0] > 1 and bool((~M).any()))


CHECK = Check(
    'C14', [Sub('files', case_, check, 3000, 90000,
                rule='whole runs writing netCDF with generated fields, steps, aggregations, conversions, clones, targets, value formats, scales, offsets, valid ranges and names, read back with netCDF4; non-trivial: two steps or more, and a cell with value')],
    rule='values decoded with scale, offset and fill value of the file against those computed from the fields; see the sub-check',
    assumptions=['the scale and offset are such that the computed values fit the integer formats', 'values within the precision of the format from a valid limit may be missing or not'], quick_s=60)
