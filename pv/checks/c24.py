"""C24 damaged input is reported and never alters other files."""
import copy
import gzip
import io
import json
import math
import os
import random
import resource
import shutil
import zlib

import eccodes as ec
import numpy as np
from hypothesis import strategies as st

from .. import boot, scene, world
from ..engine import Check, Sub, expect
from . import c10

MODES = ['grib_nearest', 'nearest', 'grib_invdist', 'invdist', 'bilinear']
GRIB_KINDS = ['nothing', 'bytes', 'bytes', 'bytes', 'data', 'data', 'header', 'truncated', 'truncated', 'inserted', 'removed', 'zeroed', 'length', 'between', 'after', 'lost end', 'lost begin', 'swapped', 'twice', 'only a part', 'grid', 'fewer values']
FILE_KINDS = ['bytes', 'bytes', 'truncated', 'zeroed', 'inserted', 'removed', 'empty', 'text', 'other']


# ------------------------------------------------------------------ damages
def damage(data, kind, r, other=b''):
    """Bytes with a damage; kind and a random.Random decide which."""
    m = bytearray(data)
    n = len(m)
    pos = lambda: r.randrange(n) if r.random() < 0.6 else min(n - 1, int(r.expovariate(1 / 40)))
    junk = lambda k: bytes(r.randrange(256) for _ in range(r.randrange(1, k)))
    if not n:
        return b'x'
    if kind == 'bytes':
        for _ in range(r.choice([1, 1, 1, 2, 5])):
            m[pos()] = r.choice([0, 255, r.randrange(256), m[pos()] ^ (1 << r.randrange(8))])
    elif kind == 'truncated':
        del m[r.randrange(n):]
    elif kind == 'zeroed':
        i = pos()
        k = len(m[i:i + r.randrange(1, 60)])
        m[i:i + k] = bytes([r.choice([0, 0, 255])]) * k
    elif kind == 'inserted':
        i = pos()
        m[i:i] = junk(40)
    elif kind == 'removed':
        i = pos()
        del m[i:i + r.randrange(1, 60)]
    elif kind == 'empty':
        m = b''
    elif kind == 'text':
        m = r.choice([b'hello', b'{}', b'\n' * 50, b'x' * 3000])
    elif kind == 'other':
        m = other
    return bytes(m)


def damage_message(m, kind, r):
    """One GRIB message, damaged."""
    ed, n = m[7], len(m)
    b = bytearray(m)
    if kind == 'data':
        # in the packed values
        for _ in range(r.choice([1, 3])):
            b[n - 5 - r.randrange(min(30, n // 3))] ^= 1 << r.randrange(8)
    elif kind == 'header':
        for _ in range(r.choice([1, 1, 2])):
            b[8 + r.randrange(min(n - 12, 90))] = r.choice([0, 1, 255, r.randrange(256)])
    elif kind == 'length':
        if ed == 1:
            b[4:7] = r.choice([0, 8, n - 1, n + 1, r.randrange(n), r.randrange(1 << 24)]).to_bytes(3, 'big')
        else:
            b[8:16] = r.choice([0, 8, n - 1, n + 1, r.randrange(n), r.randrange(1 << 24), r.randrange(1 << 63)]).to_bytes(8, 'big')
    elif kind == 'lost end':
        b[-4:] = r.choice([b'', b'7776', b'\0\0\0\0'])
    elif kind == 'lost begin':
        b[:4] = r.choice([b'', b'GRIX', b'\0\0\0\0'])
    elif kind == 'only a part':
        i = r.randrange(n)
        return bytes(b[i:i + r.randrange(n)])
    else:
        return damage(m, kind, r)
    return bytes(b)


# ------------------------------------------------------------------ runs of which anything can be expected
def contained(w, argv, probe=None, read=None):
    """The run as an unprivileged user in a child with limits; (what it returned, changed files) or a label when the decoding library itself is to blame."""
    keep = ('out', 'tables')
    before = world.snapshot(w.dir, keep), world.snapshot(w.conf), world.snapshot(w.geos), world.snapshot(w.tables)
    world.give_away(w)

    def limits():
        resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 26, 1 << 26))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        world.become_nobody()

    def run():
        limits()
        r = w.run(*argv)
        maps = None
        if read is not None and r.exc is None and r.status == 0:
            maps = read()
        return r.status, None if r.exc is None else f'{type(r.exc).__name__}: {r.exc}', [m for level, m in r.log if level == 'ERROR'][:2], maps

    how, res = world.forked(run, 120)
    if how != 'ok':
        if how == 'died' and probe is not None:
            def alone():
                limits()
                probe()
            if world.forked(alone, 120)[0] == 'died':
                return None, 'ended by the decoding library alone'
        expect(False, lambda: f'the run {how} ({res})')
    changed = [k for k in world.changes(before[0], world.snapshot(w.dir, keep)) if k != w.out]
    expect(not changed, lambda: f'the run changed {changed}')
    now = world.snapshot(w.tables)
    changed = [k for k in world.changes(before[3], now) if k in before[3] and k != w.tables]
    expect(not changed, lambda: f'the run changed the tables {changed}')
    after = world.snapshot(w.conf)
    changed = [k for k in world.changes(before[1], after) if os.path.basename(k) != 'intertables.json']
    expect(not changed, lambda: f'the run changed {changed}')
    expect(not world.changes(before[2], world.snapshot(w.geos)), 'the run changed geopotentials')
    return res, None


def judge_status(res, what):
    status, exc, errors, _ = res
    # an error or a status
    expect(exc is None or not exc.startswith(('KeyboardInterrupt', 'MemoryError')), lambda: f'{what}: {exc}')
    if exc is None:
        expect(type(status) is int and status in (0, 1), lambda: f'{what}: status {status!r}')
        expect(status == 0 or errors, lambda: f'{what}: status {status} without an error')


class Scene:
    """A valid request, run once."""

    def __init__(self, w, case):
        self.w, self.case = w, case
        g = case['grid']
        rng = np.random.default_rng(case['seed'])
        self.S = [6 * (i + 1) for i in range(case['n'])]
        n = g['ni'] * g['nj']
        kw = dict(grid=g, edition=case['edition'])
        mask = (lambda: rng.random(n) < 0.15) if case['masked'] else (lambda: None)
        self.parts = []
        for i, s in enumerate(self.S):
            p = world.write_grib(w.p('part.grb'), [dict(kw, values=np.round(rng.uniform(250, 300, n), 2), missing=mask(), end=s)])
            self.parts.append(open(p, 'rb').read())
            os.remove(p)
        self.input = w.p('in.grb')
        self.write(self.parts)
        self.maps, self.lat, self.lon, self.bad, self.cl = scene.make_target(w, g, case['tgt'])
        par = {}
        self.dem = None
        if case.get('corr'):
            self.dem = world.write_pcr(w.p('dem.map'), np.round(rng.uniform(0, 900, self.lat.shape)))
            geo = world.write_grib(w.p('geo.grb'), [dict(kw, values=np.round(rng.uniform(0, 900, n)), shortName='z')])
            r = w.run('-g', geo)
            expect(r.status == 0, lambda: f'adding the geopotential failed: {r}')
            par = {'@correctionFormula': 'p+gem-dem', '@gem': 'z', '@demMap': self.dem}
        self.fmt = case['fmt']
        agg = {'@type': case['agg'][0], '@step': case['agg'][1]} if case.get('agg') else None
        self.agg = case['agg'][0] if agg else None
        self.command = w.command('c.json', self.maps, case['mode'], parameter=par, outmaps={'@namePrefix': 'o', '@format': self.fmt}, aggregation=agg)
        self.argv = ['-c', self.command, '-i', self.input, '-B', '-l', 'ERROR']
        r = w.run(*self.argv, '-o', w.p('good'))
        expect(r.exc is None and r.status == 0, lambda: f'the run with undamaged input failed: {r}')
        self.good = self.read(w.p('good'))
        shutil.rmtree(w.p('good'))

    def write(self, parts):
        with open(self.input, 'wb') as f:
            f.write(b''.join(parts))

    def read(self, out=None):
        """[(step or None, map)]"""
        out = out or self.w.out
        if self.fmt == 'netcdf':
            if not os.listdir(out):
                return []
            d = world.read_nc(os.path.join(out, f'o_{self.agg}.nc'), 'o')
            return [(int(t), v) for t, v in zip(d['time'], d['values'])]
        return [(None, v) for k, v in sorted(self.w.pcr_outputs(out).items())]


def base_(draw, **kw):
    grid = draw(scene.regular_grid(min_side=3, max_side=4, square=True, lat0s=(50.0, 20.5), lon0s=(5.0, 100.0)))
    rows, cols = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    r = random.Random(draw(st.integers(0, 999)))
    F = [0.125, 0.1875, 0.3125, 0.625, 0.6875, 0.8125]
    ys, xs = sorted(r.randrange(grid['nj'] - 1) + r.choice(F) for _ in range(rows)), sorted(r.randrange(grid['ni'] - 1) + r.choice(F) for _ in range(cols))
    tgt = dict(rows=rows, cols=cols, ty=[y for y in ys for _ in xs], tx=[x for _ in ys for x in xs], netcdf=kw.pop('netcdf', draw(st.booleans())) and len(set(ys)) == rows and len(set(xs)) == cols, coord_mask=None, clone_mask=None)
    d = dict(grid=grid, tgt=tgt, seed=draw(st.integers(0, 9999)), n=draw(st.integers(2, 4)), edition=draw(st.sampled_from([1, 2])), masked=draw(st.sampled_from([False, False, True])), mode=draw(st.sampled_from(MODES)), fmt=draw(st.sampled_from(['netcdf', 'netcdf', 'pcraster'])), dmg=draw(st.integers(0, 2 ** 32)))
    d.update(kw)
    if d.get('corr'):
        # geopotentials of grids with missing values are another matter (C15)
        d['masked'] = False
    return d


# ------------------------------------------------------------------ GRIB
@st.composite
def grib_case(draw):
    agg = draw(st.sampled_from([None, None, None, ['instantaneous', 6], ['average', 12]]))
    return base_(draw, kind=draw(st.sampled_from(GRIB_KINDS)), k=draw(st.integers(0, 3)), stored=draw(st.sampled_from([True, True, False])), agg=agg, steps=draw(st.booleans()))


GRID_KEYS = ('gridType', 'Ni', 'Nj', 'numberOfDataPoints', 'scanningMode', 'latitudeOfFirstGridPointInDegrees', 'longitudeOfFirstGridPointInDegrees', 'latitudeOfLastGridPointInDegrees', 'longitudeOfLastGridPointInDegrees')


def decode(path):
    """What ecCodes alone says about a file: (messages [(short name, start, end, grid, date, values, missing)], error)."""
    out = []
    with open(path, 'rb') as f:
        while True:
            try:
                gid = ec.codes_new_from_file(f, product_kind=ec.CODES_PRODUCT_GRIB)
            except ec.CodesInternalError as e:
                return out, str(e)
            if gid is None:
                return out, None
            try:
                d = [ec.codes_get(gid, k) if ec.codes_is_defined(gid, k) else None for k in ('shortName', 'startStep', 'endStep')]
                grid = tuple(ec.codes_get(gid, k) if ec.codes_is_defined(gid, k) else None for k in GRID_KEYS)
                v = ec.codes_get_double_array(gid, 'values')
                m = ec.codes_get_array(gid, 'bitmap', int) == 0 if ec.codes_get(gid, 'bitmapPresent') else np.zeros(v.shape, bool)
                more = tuple(ec.codes_get(gid, k) for k in ('level', 'dataDate', 'dataTime', 'stepType'))
                out.append((*d, grid, v, m, more))
            except (ec.CodesInternalError, ValueError) as e:
                out.append((None, None, None, None, None, None, str(e)))
            ec.codes_release(gid)


def key_of(d):
    return d[:4] + (d[4].tobytes(), d[5].tobytes()) + d[6:]


def probe_grib(path, lats, lons, mode):
    """Everything a program may ask ecCodes about the file."""
    try:
        i = ec.codes_index_new_from_file(path, ['shortName'])
        ec.codes_index_select(i, 'shortName', '2t')
        while True:
            gid = ec.codes_new_from_index(i)
            if gid is None:
                break
            everything(gid, lats, lons, mode)
    except Exception:
        pass
    with open(path, 'rb') as f:
        while True:
            try:
                gid = ec.codes_new_from_file(f, product_kind=ec.CODES_PRODUCT_GRIB)
            except Exception:
                break
            if gid is None:
                break
            everything(gid, lats, lons, mode)


def everything(gid, lats, lons, mode):
    for k in GRID_KEYS + ('shortName', 'startStep', 'endStep', 'stepType', 'units', 'levelType', 'dataDate', 'dataTime', 'level', 'missingValue', 'numberOfValues', 'radius'):
        try:
            ec.codes_get(gid, k)
        except Exception:
            pass
    n = p = None
    for k in ('values', 'latitudes', 'longitudes'):
        try:
            x = len(ec.codes_get_double_array(gid, k))
            n = x if k == 'values' else n
        except Exception:
            pass
    try:
        ec.codes_get_array(gid, 'bitmap', int)
        p = ec.codes_get(gid, 'numberOfDataPoints')
    except Exception:
        pass
    if mode in scene.GRIB_MODES and n is not None and n == p:
        for la, lo in zip(lats.ravel().tolist(), lons.ravel().tolist()):
            try:
                ec.codes_grib_find_nearest(gid, la, lo, npoints=1 if mode == 'grib_nearest' else 4)
            except Exception:
                pass
    try:
        ec.codes_release(gid)
    except Exception:
        pass


def grib_check(case, rec):
    c10.quick_progress()
    with world.World() as w:
        if case['agg'] and case['agg'][1] > 6 * case['n']:
            case = dict(case, agg=None)
        s = Scene(w, case)
        r = random.Random(case['dmg'])
        k = case['k'] % len(s.parts)
        parts, kind = list(s.parts), case['kind']
        if kind == 'truncated':
            whole = b''.join(parts)
            cut = r.randrange(len(whole))
            at = 0
            for i, p in enumerate(parts):
                parts[i] = p[:max(0, cut - at)]
                at += len(p)
        elif kind in ('between', 'after'):
            junk = bytes(r.randrange(256) for _ in range(r.randrange(1, 200))).replace(b'GRIB', b'GRI.').replace(b'BUFR', b'BUF.')
            if kind == 'after':
                parts.append(junk)
            else:
                parts[k] = junk + parts[k]
        elif kind == 'nothing':
            pass
        elif kind == 'twice':
            parts.append(parts[k])
        elif kind == 'swapped':
            # the rest of a message follows the begin of another
            j = (k + 1) % len(parts)
            i = r.randrange(len(parts[k]))
            parts[k], parts[j] = parts[k][:i] + parts[j][i:], parts[j][:i] + parts[k][i:]
        elif kind in ('grid', 'fewer values'):
            gid = ec.codes_new_from_message(parts[k])
            g = dict(case['grid'])
            n = g['ni'] * g['nj']
            if kind == 'grid':
                # a proper message, somewhere else
                key = r.choice(['lat0', 'lon0', 'dlat', 'dlon', 'ni'])
                g[key] = g[key] + (1 if key != 'lat0' else -1)
                p = world.write_grib(w.p('part.grb'), [dict(grid=g, edition=case['edition'], values=np.linspace(250, 300, g['ni'] * g['nj']), end=s.S[k])])
                parts[k] = open(p, 'rb').read()
                os.remove(p)
            else:
                ec.codes_set(gid, 'bitmapPresent', 0)
                ec.codes_set_values(gid, np.linspace(250, 300, r.randrange(2, n)))
                parts[k] = ec.codes_get_message(gid)
            ec.codes_release(gid)
        else:
            parts[k] = damage_message(parts[k], kind, r)
        s.write(parts)
        if not case['stored']:
            shutil.rmtree(w.tables)
            os.makedirs(w.tables)
            p = os.path.join(w.conf, 'intertables.json')
            if os.path.exists(p):
                os.remove(p)
        # what there is to read
        how, decoded = world.forked(lambda: decode(s.input), 60)
        opts = ['-s', s.S[1], '-e', s.S[-1]] if case['steps'] and case['n'] > 2 and not case['agg'] else []
        probe = lambda: probe_grib(s.input, s.lat, s.lon, case['mode'])
        res, label = contained(w, [*s.argv, *opts, '-o', w.out], probe, s.read)
        if label:
            rec.label(label, kind)
            return
        judge_status(res, kind)
        status, exc, errors, maps = res
        if kind == 'nothing':
            expect(status == 0, lambda: f'undamaged input: status {status} {exc} {errors}')
        judged = 'status only'
        if how == 'ok':
            messages, error = decoded
            if error is not None:
                expect(status != 0, lambda: f'{kind}: ecCodes can not read the file ({error}) and status {status}')
                judged = 'unreadable'
            elif status == 0:
                originals = {}
                for p, step in zip(s.parts, s.S):
                    with open(w.p('one.grb'), 'wb') as f:
                        f.write(p)
                    originals[step] = key_of(decode(w.p('one.grb'))[0][0])
                os.remove(w.p('one.grb'))
                mine = [m for m in messages if m[0] == '2t']
                clear = len({m[3] for m in mine}) == 1 and len({m[2] for m in mine}) == len(mine) and all(isinstance(m[1], int) and isinstance(m[2], int) and m[0] is not None for m in messages) and len({m[6] for m in mine}) == 1
                lo, hi = (s.S[1], s.S[-1]) if opts else (0, max([m[2] for m in mine if isinstance(m[2], int)], default=0))
                grids = {m[3] for m in mine}
                untouched = [m[2] for m in mine if m[2] in originals and key_of(m) == originals[m[2]] and lo <= m[2] <= hi]
                if untouched and not case['agg']:
                    expect(maps, lambda: f'{kind}: status 0 without maps, though the messages of steps {untouched} are undamaged')
                if len(grids) > 1:
                    # undamaged messages keep their values even if others are somewhere else
                    clear = False
                    true = [m for m in mine if m[2] in originals and key_of(m) == originals[m[2]]]
                    if s.fmt == 'netcdf' and true and maps and not case['agg'] and len({m[2] for m in mine}) == len(mine):
                        judged = compare(s, maps, {m[2] for m in true}, kind, judged)
                if clear and mine and all(m[1] == m[2] for m in mine) and not case['agg']:
                    want = sorted(m[2] for m in mine if lo <= m[2] <= hi)
                    expect(len(maps) == len(want), lambda: f'{kind}: {len(maps)} maps, messages of steps {want}, status 0')
                    if s.fmt == 'netcdf':
                        expect([t for t, _ in maps] == want, lambda: f'{kind}: maps of steps {[t for t, _ in maps]}, messages {want}')
                    maps = [(t, v) for t, (_, v) in zip(want, maps)]
                    same = {m[2] for m in mine if m[2] in originals and key_of(m) == originals[m[2]]}
                    judged = compare(s, maps, same, kind, judged)
    rec.label(kind, f'status {status}', f'judged: {judged}', case['mode'])
    rec.hit(judged != 'status only' or status != 0)


def equal(maps, good):
    return len(maps) == len(good) and all(a[0] == b[0] and a[1].shape == b[1].shape and np.allclose(a[1], b[1], rtol=1e-9, atol=1e-9, equal_nan=True) for a, b in zip(maps, good))


def compare(s, maps, same, kind, judged):
    good = dict(zip(s.S, [v for _, v in s.good]))
    for t, v in maps:
        if t in same:
            judged = 'values'
            expect(v.shape == good[t].shape and np.array_equal(np.isnan(v), np.isnan(good[t])) and np.allclose(v, good[t], rtol=1e-6, atol=0, equal_nan=True), lambda: f'{kind}: the map of the undamaged message at step {t} is {v.tolist()}, with undamaged input {good[t].tolist()}')
    return judged


# ------------------------------------------------------------------ stored tables
@st.composite
def table_case(draw):
    return base_(draw, kind=draw(st.sampled_from(FILE_KINDS + ['array', 'array', 'pickle', 'end lost', 'content', 'content', 'same length'])), plain=draw(st.sampled_from([False, False, False, True])), create=draw(st.booleans()), what=draw(st.integers(0, 9)))


class Bomb:
    def __init__(self, path):
        self.path = path

    def __reduce__(self):
        return os.mkdir, (self.path,)


def table_check(case, rec):
    c10.quick_progress()
    with world.World() as w:
        s = Scene(w, case)
        names = [f for f in os.listdir(w.tables) if f.endswith('.gz')]
        expect(len(names) == 1, lambda: f'tables {os.listdir(w.tables)}')
        p = os.path.join(w.tables, names[0])
        data = open(p, 'rb').read()
        inner = gzip.decompress(data)
        r = random.Random(case['dmg'])
        kind = case['kind']
        readable = False
        if kind in ('array', 'pickle'):
            t = np.load(io.BytesIO(inner))
            readable = True
            if kind == 'pickle':
                x = np.empty(2, object)
                x[:] = Bomb(w.p('exploded'))
            else:
                x = [np.zeros(0), np.float64(3), t[:1], np.concatenate([t, t]), t.T.copy(), np.arange(30), np.array(['a', 'b']), t.astype(object) if t.dtype.names is None else np.zeros(3), np.full((3, 4), 10 ** 6), np.full((3, 2), np.nan)][case['what']]
            b = io.BytesIO()
            np.save(b, x, allow_pickle=True)
            inner = b.getvalue()
            new = gzip.compress(inner)
        elif kind == 'content':
            # other numbers, with the checksum of the true ones
            t = np.load(io.BytesIO(inner)).copy()
            flat = t['indexes' if 'indexes' in t.dtype.names else t.dtype.names[0]] if t.dtype.names else t
            flat[...] = np.roll(flat, r.randrange(1, 4), axis=-1) if r.random() < 0.5 and flat.shape[-1] > 1 else np.where(flat > 0, flat - 1, flat + 1)
            b = io.BytesIO()
            np.save(b, t)
            new = gzip.compress(b.getvalue())[:-8] + data[-8:]
        elif kind == 'same length':
            # a changed bit which leaves the length as it is
            new = data
            for _ in range(300):
                b = bytearray(data)
                b[r.randrange(10, len(data) - 8)] ^= 1 << r.randrange(8)
                new = bytes(b)
                try:
                    x = zlib.decompressobj(-15).decompress(new[data.index(b'\0', 10) + 1:-8] if data[3] & 8 else new[10:-8])
                except zlib.error:
                    continue
                if len(x) == len(inner) and x[:128] == inner[:128] and x != inner:
                    break
        elif kind == 'end lost':
            new = data[:-r.randrange(1, 9)]
        else:
            new = damage(data if not case['plain'] else inner, kind, r, open(s.command, 'rb').read())
        os.remove(p)
        if case['plain'] and kind not in ('end lost', 'content', 'same length'):
            p = p[:-3]
            # tables of former versions are registered with their names
            f = os.path.join(w.conf, 'intertables.json')
            text = open(f).read()
            open(f, 'w').write(text.replace('.npy.gz', '.npy'))
            if kind in ('array', 'pickle'):
                new = inner
        with open(p, 'wb') as f:
            f.write(new)
        argv = [x for x in s.argv if x != '-B' or case['create']]
        res, label = contained(w, [*argv, '-o', w.out], None, s.read)
        judge_status(res, kind)
        status, exc, errors, maps = res
        expect(not os.path.exists(w.p('exploded')), 'code of a damaged table was run')
        if not p.endswith('.gz') and kind not in ('pickle', 'array', 'empty', 'text', 'other'):
            # nothing tells that numbers of a plain table changed
            try:
                np.load(io.BytesIO(new))
                readable = True
            except Exception:
                pass
        if status == 0 and exc is None and not readable:
            same = equal(maps, s.good)
            expect(same, lambda: f'table with {kind} damage: status 0 and maps {[v.tolist() for _, v in maps]}, true ones {[v.tolist() for _, v in s.good]}')
        if kind in ('pickle', 'empty', 'text', 'other', 'end lost'):
            if status == 0:
                expect(same if not readable else False, lambda: f'table with {kind} damage: status 0')
    rec.label(kind, f'status {status}', case['mode'], 'plain' if not p.endswith('.gz') else 'compressed')
    rec.hit()


# ------------------------------------------------------------------ maps
@st.composite
def map_case(draw):
    nc = draw(st.booleans())
    mode = draw(st.sampled_from(MODES))
    return base_(draw, netcdf=nc, mode=mode, kind=draw(st.sampled_from(FILE_KINDS + ['size'])), corr=draw(st.booleans()), which=draw(st.integers(0, 3)), masked=False, stored=draw(st.booleans()))


def read_map(p):
    """Values of a map by GDAL or netCDF4 alone, None if unreadable."""
    if p.endswith('.nc'):
        import netCDF4
        try:
            d = netCDF4.Dataset(p)
            out = []
            for k in sorted(d.variables):
                v = d.variables[k]
                a = np.ma.filled(np.ma.asarray(v[:]).astype(float), np.nan) if v.dtype != str and v.dtype.kind in 'iuf' else np.zeros(0)
                out.append((k, a.shape, a.tobytes(), str({x: str(v.getncattr(x)) for x in v.ncattrs()})))
            d.close()
            return out
        except Exception:
            return None
    from osgeo import gdal
    try:
        d = gdal.Open(p)
        if d is None:
            return None
        b = d.GetRasterBand(1)
        a = b.ReadAsArray()
        if a is None:
            return None
        return [(a.shape, np.asarray(a, float).tobytes(), str(a.dtype), b.GetNoDataValue())]
    except Exception:
        return None


def map_check(case, rec):
    c10.quick_progress()
    with world.World() as w:
        s = Scene(w, case)
        files = sorted({s.maps[k] for k in ('lat', 'lon', 'clone')}) + ([s.dem] if s.dem else [])
        p = files[case['which'] % len(files)]
        kind = case['kind']
        r = random.Random(case['dmg'])
        first = world.forked(lambda: read_map(p), 60)
        data = open(p, 'rb').read()
        if kind == 'size':
            shape = (s.lat.shape[0] + r.choice([-1, 1, 0]), s.lat.shape[1] + r.choice([1, 2]))
            if shape[0] < 1 or p.endswith('.nc'):
                new = b''
            else:
                new = open(world.write_pcr(w.p('part.map'), np.full(shape, 45.0)), 'rb').read()
                os.remove(w.p('part.map'))
                if os.path.exists(w.p('part.map.aux.xml')):
                    os.remove(w.p('part.map.aux.xml'))
        else:
            new = damage(data, kind, r, open(s.input, 'rb').read())
        with open(p, 'wb') as f:
            f.write(new)
        if not case['stored']:
            shutil.rmtree(w.tables)
            os.makedirs(w.tables)
            i = os.path.join(w.conf, 'intertables.json')
            if os.path.exists(i):
                os.remove(i)
        now = world.forked(lambda: read_map(p), 60)
        res, label = contained(w, [*s.argv, '-o', w.out], lambda: read_map(p), s.read)
        if label:
            rec.label(label, kind)
            return
        judge_status(res, kind)
        status, exc, errors, maps = res
        judged = 'status only'
        if now == first:
            judged = 'as before'
            if status == 0 and exc is None:
                ok = equal(maps, s.good)
                expect(ok, lambda: f'{kind} of {os.path.basename(p)}: values of the map are the same, results differ: {maps}, {s.good}')
        elif now[0] == 'ok' and now[1] is None:
            judged = 'unreadable'
            expect(status != 0, lambda: f'{kind} of {os.path.basename(p)}: the map can not be read and status {status}')
        elif now[0] == 'ok' and not p.endswith('.nc') and now[1][0][0] != first[1][0][0]:
            judged = 'another size'
            expect(status != 0, lambda: f'{kind} of {os.path.basename(p)}: size {now[1][0][0]} instead of {first[1][0][0]} and status {status}')
    rec.label(kind, f'status {status}', f'judged: {judged}', os.path.basename(p))
    rec.hit(judged != 'status only' or status != 0)


# ------------------------------------------------------------------ command files
JUNK = [None, True, False, 0, 1, -1, 5, 7, 10 ** 6, -10 ** 6, 1e300, 0.5, '', ' ', '0', '-1', 'x', 'nan', '1e9', [], {}, [1], ['a', 'b'], {'@a': 1}, [[]], '../', '..', '/', '/nowhere', '{X}', '{', '%s', 'é', 'a' * 300, '\0', 'GRIB', 'average', 'accumulation', 'netcdf', 'nearest', 'p', '2t', 'tp', 'z', 'p+gem',
        '__import__("os")', 'exit()', '1/0', '9**9**9', 'while']
PATHS = ['@latMap', '@lonMap', '@cloneMap', '@demMap']


@st.composite
def command_case(draw):
    agg = draw(st.sampled_from([None, ['instantaneous', 6], ['average', 12], ['accumulation', 6]]))
    return base_(draw, agg=agg, kind=draw(st.sampled_from(['structure', 'structure', 'structure', 'structure', 'bytes', 'truncated', 'removed', 'inserted', 'zeroed', 'text', 'other', 'empty', 'encoding'])), corr=draw(st.sampled_from([False, False, True])), times=draw(st.sampled_from([1, 1, 2, 3])),
                 extra=draw(st.booleans()))


def places(x, path=()):
    """Paths of everything in a structure."""
    out = [path] if path else []
    if isinstance(x, dict):
        for k in x:
            out += places(x[k], path + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            out += places(x[i], path + (i,))
    return out


def mutate(d, r):
    """One structural mutation of a JSON structure."""
    d = copy.deepcopy(d)
    where = places(d)
    if not where:
        return r.choice(JUNK)
    p = r.choice(where)
    if r.random() < 0.05:
        return r.choice([[d], d.get('Execution') if isinstance(d, dict) else d, [], {}, None, 'x', 3])
    parent = d
    for k in p[:-1]:
        parent = parent[k]
    k = p[-1]
    how = r.choice(['remove', 'junk', 'junk', 'junk', 'rename', 'move', 'text', 'list', 'number', 'copy'])
    if how == 'remove':
        del parent[k]
    elif how == 'junk':
        parent[k] = r.choice(JUNK)
    elif how == 'rename' and isinstance(parent, dict):
        parent[r.choice([str(k).strip('@'), '@' + str(k), str(k).lower(), str(k)[:-1], ''])] = parent.pop(k)
    elif how == 'move':
        q = r.choice(where)
        x = d
        try:
            for a in q[:-1]:
                x = x[a]
            x[q[-1]], parent[k] = copy.deepcopy(parent[k]), copy.deepcopy(x[q[-1]])
            json.dumps(d)
        except (KeyError, TypeError, IndexError, ValueError, RecursionError):
            return r.choice(JUNK)
    elif how == 'text':
        parent[k] = json.dumps(parent[k])
    elif how == 'list':
        parent[k] = [parent[k]]
    elif how == 'number':
        v = parent[k]
        parent[k] = -v if isinstance(v, (int, float)) and not isinstance(v, bool) else r.choice([0, -5, 3, 2.5, 10 ** 12, math.inf, math.nan])
    else:
        q = r.choice(where)
        x = d
        try:
            for a in q:
                x = x[a]
        except (KeyError, TypeError, IndexError):
            return d
        parent[k] = copy.deepcopy(x)
    return d


EXTRA = {'Parameter': {'@tstart': 6, '@tend': 12, '@dataDate': 20200102, '@dataTime': 1200, '@level': 0, '@applyConversion': 'k2c', '@perturbationNumber': 0}, 'OutMaps': {'@fmap': 1, '@ext': 1, '@outputStepUnits': 'D', '@scaleFactor': 1, '@offset': 0, '@validMin': -500, '@validMax': 9000, '@valueFormat': 'f8'},
         'Interpolation': {'@rotated_target': False, '@num_of_splits': 2, '@use_broadcasting': True, '@cdd_map': '', '@cdd_mode': 'Hofstra', '@cdd_options': {}}, 'Aggregation': {'@halfweights': True, '@forceZeroArray': 'true'}}


def command_check(case, rec):
    c10.quick_progress()
    with world.World() as w:
        if case['agg'] and case['agg'][1] > 6 * case['n']:
            case = dict(case, agg=None)
        s = Scene(w, case)
        r = random.Random(case['dmg'])
        text = open(s.command).read()
        d = json.loads(text)
        if case['extra']:
            x = d['Execution']
            for k, v in EXTRA.items():
                at = x['OutMaps']['Interpolation'] if k == 'Interpolation' else x.setdefault(k, {}) if k != 'Aggregation' or k in x else {}
                for a, b in v.items():
                    if r.random() < 0.3:
                        at.setdefault(a, b)
            text = json.dumps(d)
        kind = case['kind']
        if kind == 'structure':
            for _ in range(case['times']):
                d = mutate(d, r)
            new = json.dumps(d).encode()
        elif kind == 'encoding':
            new = text.replace('@name', '@näme').encode(r.choice(['latin-1', 'utf-16', 'utf-8-sig']))
        else:
            new = text.encode()
            for _ in range(case['times']):
                new = damage(new, kind, r, open(s.input, 'rb').read())
        with open(s.command, 'wb') as f:
            f.write(new)
        res, label = contained(w, [*s.argv, '-o', w.out], None, None)
        judge_status(res, f'{kind}: {new[:3000]!r}')
        status, exc, errors, _ = res
        try:
            valid = isinstance(json.loads(new, strict=False), dict)
        except ValueError:
            valid = False
        if not valid:
            expect(status != 0, lambda: f'status 0 with the command file {new[:2000]!r}')
    rec.label(kind, f'status {status}' if exc is None else 'exception', 'JSON' if valid else 'not JSON')
    rec.hit(status != 0 or kind == 'structure')


def warm():
    from . import c08
    c08.warm()
    c10.quick_progress()
    g = dict(type='regular_ll', ni=3, nj=3, lat0=50.0, lon0=5.0, dlat=1.0, dlon=1.0)
    for mode in MODES:
        with world.World() as w:
            Scene(w, dict(grid=g, tgt=dict(rows=1, cols=1, ty=[0.3], tx=[0.3], netcdf=False, coord_mask=None, clone_mask=None), seed=1, n=2, edition=1, masked=False, mode=mode, fmt='netcdf', corr=mode == 'nearest'))


CHECK = Check(
    'C24', [Sub('grib', grib_case, grib_check, 1500, 60000,
                rule='valid GRIB files of two to four messages with a damaged byte, header, length, data, begin or end, cut or mixed messages, junk between and after them, doubled messages, messages of another grid or with too few values; non-trivial: the run failed, or its '
                     'maps or its status could be judged against what ecCodes alone reads'),
            Sub('tables', table_case, table_check, 700, 25000, rule='stored tables, compressed or not, with damaged, lost or added bytes, other arrays, pickles; every case counts'),
            Sub('maps', map_case, map_check, 700, 25000, rule='coordinate, clone and elevation maps in PCRaster and netCDF with the same damages; non-trivial: the run failed or could be judged'),
            Sub('commands', command_case, command_check, 1200, 50000, rule='command files with one to three structural mutations (removed, renamed, moved, replaced, nested values) or damaged bytes; non-trivial: the run failed or the file is JSON with mutations')],
    rule='runs as an unprivileged user in a child process with limits on time and file size: how it ends, the bytes of everything around it before and after, and maps against those with undamaged input',
    assumptions=['a process ended by ecCodes, GDAL or HDF5 itself, shown by reading the same file with the library alone, is not judged', 'damages of plain tables and maps which leave them readable can not be recognised'], quick_s=70, warm=warm)
