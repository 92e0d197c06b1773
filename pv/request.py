"""Requests as a user makes them: input with everything around what is asked, command file and options, and the documented outcome computed from the file itself.

A case is plain JSON; Request writes it into a World and knows the maps it stands for.
"""
import os

import eccodes as ec
import numpy as np
from hypothesis import strategies as st

from . import aggr, scene, world

FORMULAS = ['p+gem-dem*0.0065', 'p-dem/10.0', '(p+gem)*2', 'p*dem/1000', 'where(dem>500,p,gem)']
GEMS = ['(z/9.81)*0.0065', 'z', 'z/100+1']
EXACT_MODES = ('grib_nearest', 'nearest', 'grib_invdist', 'invdist')
FRACTIONS = [0.125, 0.1875, 0.3125, 0.625, 0.6875, 0.8125]
CONVERSIONS = {'2t': ['k2c', 'k2c_cut', 'aff', 'ident', 'ident_cut'], 't': ['k2c'], 'tp': ['m2mm', 'm2mm_cut'], 'ssrd': ['ten'], '10u': ['one']}
FUNCTIONS = {'k2c': lambda x: x - 273.15, 'k2c_cut': lambda x: x - 273.15, 'aff': lambda x: x * 2 - 5, 'ident': lambda x: x, 'ident_cut': lambda x: x, 'm2mm': lambda x: x * 1000, 'm2mm_cut': lambda x: x * 1000,
             'ten': lambda x: x / 10, 'one': lambda x: x + 1}
CUT = ('k2c_cut', 'ident_cut', 'm2mm_cut', 'ten')
RANGES = {'2t': (255, 290), 't': (220, 300), 'tp': (0, 0.2), 'ssrd': (-5000, 1e6), '10u': (-20, 20)}


def finer(grid, k=2):
    return dict(grid, ni=k * (grid['ni'] - 1) + 1, nj=k * (grid['nj'] - 1) + 1, dlat=grid['dlat'] / k, dlon=grid['dlon'] / k)


@st.composite
def steps_(draw):
    kind = draw(st.sampled_from(['regular', 'regular', 'changing', 'single']))
    k = draw(st.sampled_from([6, 3, 12, 24, 1]))
    if kind == 'single':
        return [draw(st.sampled_from([6, 12, 24]))]
    if kind == 'regular':
        S = [k * (i + 1) for i in range(draw(st.integers(2, 6)))]
    else:
        m, n = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        S = [k * (i + 1) for i in range(m)]
        S += [S[-1] + 2 * k * (i + 1) for i in range(n)]
    return ([0] if draw(st.booleans()) else []) + S


@st.composite
def case_(draw, modes=EXACT_MODES, two=(None, None, None, 'one file', 'two files'), generic=True, min_side=3):
    grid = draw(scene.regular_grid(min_side=min_side, max_side=5, square=True, lat0s=(50.0, 20.5, -20.0), lon0s=(5.0, -3.0, 100.0, 200.0)))
    short = draw(st.sampled_from(['2t', '2t', '2t', 'tp', 'tp', 't', '10u', 'ssrd']))
    accum = short in ('tp', 'ssrd')
    S = draw(steps_())
    mode = draw(st.sampled_from(modes))
    rows, cols = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    nc = mode == 'invdist' or draw(st.booleans())      # single precision coordinates change the weights
    pos = lambda n: st.tuples(st.integers(0, n - 2), st.sampled_from(FRACTIONS)).map(sum)
    if nc or draw(st.booleans()):
        ys, xs = sorted(draw(st.lists(pos(grid['nj']), min_size=rows, max_size=rows, unique=True))), sorted(draw(st.lists(pos(grid['ni']), min_size=cols, max_size=cols, unique=True)))
        ty, tx = [y for y in ys for _ in xs], [x for _ in ys for x in xs]
    else:
        ty, tx = draw(st.lists(pos(grid['nj']), min_size=rows * cols, max_size=rows * cols)), draw(st.lists(pos(grid['ni']), min_size=rows * cols, max_size=rows * cols))
    N = rows * cols
    mask = lambda: draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from([True, False, False]), min_size=N, max_size=N).filter(lambda m: not all(m)))) if N > 1 else None
    tgt = dict(rows=rows, cols=cols, ty=ty, tx=tx, netcdf=nc, coord_mask=None if nc else mask(), clone_mask=mask())
    res = draw(st.sampled_from(two)) if len(S) > 2 else None
    kind = draw(st.sampled_from(['accumulation', None, 'instantaneous', 'average', 'half'])) if len(S) > 1 else None
    if accum and kind in ('average', 'half', 'instantaneous'):
        kind = 'accumulation'
    base = S[1] - S[0] if S[0] == 0 else S[0]
    a = base * draw(st.sampled_from([1, 2, 1])) if len(S) > 1 else base
    start, end = draw(st.sampled_from([None, None, 0, 1])), draw(st.sampled_from([None, None, 1, 2]))
    edition = draw(st.sampled_from([1, 2]))
    number = draw(st.sampled_from([None, None, None, 3])) if not accum or edition == 1 else None
    case = dict(grid=grid, short=short, S=S, mode=mode, tgt=tgt, two=res, change=draw(st.integers(1, max(1, len(S) - 2))), overlap=draw(st.booleans()), factor=draw(st.sampled_from([2, 2, 'coarser'] + ['same', 'wider'] * (res == 'two files'))), kind=kind, a=a, start=start, end=end,
                edition=edition, number=number, level=draw(st.sampled_from([500, 850, 0])) if short == 't' else None, seed=draw(st.integers(0, 99999)), masked=draw(st.sampled_from([0, 0, 0.2])) if 'invdist' not in mode or not generic else 0,
                conv=draw(st.sampled_from([None] + CONVERSIONS[short])), corr=draw(st.sampled_from([None, None, [draw(st.integers(0, len(FORMULAS) - 1)), draw(st.integers(0, len(GEMS) - 1))]])),
                fmt=draw(st.sampled_from(['pcraster', 'netcdf'])), noise=draw(st.lists(st.sampled_from(['other member', 'other parameter', 'other date', 'other level', 'other time']), max_size=3, unique=True)),
                order=draw(st.integers(0, 999)), unit=draw(st.sampled_from([24, 24, 6, 'a'])), force=draw(st.booleans()), clone_nc=draw(st.sampled_from([False, False, True])), by_json=draw(st.booleans()))
    if case['masked'] and case['corr']:
        # geopotentials of grids with missing values are another matter (C15)
        case['corr'] = None
    return case


class Request:
    def __init__(self, w, case, name='r'):
        self.w, self.case, self.name = w, case, name
        c = case
        self.grids = [c['grid']]
        if c['two']:
            f = finer(c['grid'])
            g = c['grid']
            self.grids = {'coarser': [f, g], 'same': [g, g], 'wider': [g, dict(g, ni=g['ni'] + 2, lon0=g['lon0'] - g['dlon'])]}.get(c['factor'], [g, f])
        self.rng = np.random.default_rng(c['seed'])
        self.S = c['S']
        self.interp = {}        # further interpolation settings of the command file
        self._steps()
        self._inputs()
        self._maps()
        self._settings()

    # -- which steps are on which grid
    def _steps(self):
        c, S = self.case, self.S
        self.on = [list(S), []]
        if c['two']:
            i = min(c['change'], len(S) - 1)
            self.change = S[i]
            need = c['kind'] in ('accumulation', 'half')
            both = (c['overlap'] or need)
            self.on = [S[:i + 1] if both else S[:i], S[i:]]

    def _message(self, grid, step, **kw):
        c = self.case
        n = grid['ni'] * grid['nj']
        lo, hi = RANGES[kw.get('shortName', c['short'])] if kw.get('shortName', c['short']) in RANGES else (0, 9000)
        accum = kw.get('shortName', c['short']) in ('tp', 'ssrd')
        v = np.round(self.rng.uniform(lo, hi, n), 4) * ((step + 1) / 24 if accum else 1)
        m = None
        if c['masked']:
            m = self.rng.random(n) < c['masked']
            m[self.rng.integers(n)] = False
            m = m if m.any() else None
        d = dict(grid=grid, values=v, missing=m, shortName=c['short'], end=step, edition=c['edition'], number=c['number'], level=c['level'], date=c.get('date', 20200102), time=c.get('time', 1200))
        if accum:
            d.update(stepType='accum')
        d.update(kw)
        if d['shortName'] != 't':
            d['level'] = None
        return d

    def _inputs(self):
        c, w = self.case, self.w
        parts = [[self._message(g, s) for s in on] for g, on in zip(self.grids, self.on)]
        noise = []
        self.select = {'number': c['number'], 'level': c['level'], 'date': None, 'time': None}
        for x in c['noise']:
            for s in self.S[:2]:
                g = self.grids[0]
                if x == 'other member' and c['number'] is not None:
                    noise.append(self._message(g, s, number=c['number'] + 1))
                elif x == 'other parameter':
                    noise.append(self._message(g, s, shortName='10u' if c['short'] != '10u' else '2t', stepType='instant', number=None))
                elif x == 'other date':
                    noise.append(self._message(g, s, date=20200103))
                    self.select['date'] = c.get('date', 20200102)
                elif x == 'other time':
                    noise.append(self._message(g, s, time=0))
                    self.select['time'] = c.get('time', 1200)
                elif x == 'other level' and c['short'] == 't':
                    noise.append(self._message(g, s, level=c['level'] + 50))
        parts += [[]] * (2 - len(parts))
        if c['two'] == 'two files':
            files = [parts[0] + noise, parts[1] + noise[:1] * (len(c['noise']) > 1)]
        else:
            files = [parts[0] + parts[1] + noise]
        self.files, self.clean = [], []
        shuffle = np.random.default_rng(c['order'])
        for i, f in enumerate(files):
            self.files.append(world.write_grib(w.p(f'{self.name}{i}.grb'), [f[k] for k in shuffle.permutation(len(f))]))
        # the fields as stored
        self.F, self.src = [], []
        for i, p in enumerate(parts):
            path = w.p(f'{self.name}_clean{i}.grb')
            if not p:
                self.F.append({})
                continue
            world.write_grib(path, p)
            self.clean.append(path)
            d = world.read_grib(path)
            self.F.append({x['endStep']: np.ma.array(x['values'], mask=x['mask']) for x in d})
            self.src.append(d[0])

    def _maps(self):
        c, w = self.case, self.w
        g, t = c['grid'], c['tgt']
        self.maps, self.lat, self.lon, self.bad, self.cl = scene.make_target(w, g, t)
        if c['clone_nc'] and c['fmt'] == 'netcdf':
            self.maps['clone'] = world.write_nc_map(w.p('clone.nc'), np.ones(self.lat.shape), np.arange(t['rows'])[::-1] + 1.0, np.arange(t['cols']) + 1.0, mask=self.cl)
        self.gems = []
        if c['corr']:
            self.dem = np.round(self.rng.uniform(-50, 3000, self.lat.shape)).astype(np.float32).astype(float)
            self.dem_map = world.write_pcr(w.p('dem.map'), self.dem)
            for i, gr in enumerate(self.grids):
                if i and gr == self.grids[0]:
                    # one geopotential of a grid only
                    self.gems.append(self.gems[0])
                    continue
                p = world.write_grib(w.p(f'geo{i}.grb'), [dict(grid=gr, values=np.round(self.rng.uniform(-200, 30000, gr['ni'] * gr['nj'])), shortName='z', edition=c['edition'])])
                self.gems.append(p)

    def _settings(self):
        c, S = self.case, self.S
        self.start = {None: None, 0: 0, 1: None}[c['start']]
        self.end = None
        a = c['a']
        last = S[-1]
        if c['start'] == 1:
            if c['kind'] is None:
                self.start = S[min(1, len(S) - 1)]
            elif c['kind'] == 'instantaneous':
                self.start = 2 * a
            else:
                self.start = 2 * a
            if self.start > last or c['short'] in ('tp', 'ssrd') and c['kind'] is None:
                self.start = None
        first = (self.start or (a if c['kind'] else S[0]))
        if c['end'] == 1 and last > first:
            self.end = first + (last - first) // 2
            if c['kind'] is None and not [s for s in S if first <= s <= self.end]:
                self.end = None
            if c['kind'] is None and self.end == self.start:
                self.end = None
        elif c['end'] == 2:
            self.end = last
            if c['kind'] is None and self.end == self.start:
                self.end = None
        self.unit = a if c['unit'] == 'a' else c['unit']
        par = {'@applyConversion': c['conv']} if c['conv'] else {}
        if c['corr']:
            par.update({'@correctionFormula': FORMULAS[c['corr'][0]], '@gem': GEMS[c['corr'][1]], '@demMap': self.dem_map})
        if c['level'] is not None:
            par['@level'] = c['level']
        self.options = []
        for k, o, v in (('@tstart', '-s', self.start), ('@tend', '-e', self.end), ('@dataDate', '-D', self.select['date']), ('@dataTime', '-T', self.select['time'])):
            if v is not None:
                if c['by_json']:
                    par[k] = v
                else:
                    self.options += [o, v]
        if c['number'] is not None:
            self.options += ['-m', c['number']]
        self.par = par
        self.agg = None
        if c['kind']:
            self.agg = {'@type': 'average' if c['kind'] == 'half' else c['kind'], '@step': a}
            if c['kind'] == 'half':
                self.agg['@halfweights'] = True
            if c['kind'] == 'accumulation' and c['force']:
                self.agg['@forceZeroArray'] = 'true'

    # -- how it is asked
    def register(self):
        """Adds the geopotentials."""
        return [self.w.run('-g', p) for p in dict.fromkeys(self.gems)]

    def command(self, **outmaps):
        c = self.case
        return self.w.command(f'{self.name}.json', self.maps, c['mode'], shortName=c['short'], parameter=self.par, aggregation=self.agg, interpolation=self.interp, outmaps={'@namePrefix': 'o', '@format': c['fmt'], '@unitTime': self.unit, **outmaps})

    def argv(self, out, files=None, create=True, options=None, **outmaps):
        files = files or self.files
        return ['-c', self.command(**outmaps), '-i', files[0], *(['-I', files[1]] if len(files) > 1 else []), '-o', out, *(self.options if options is None else options), *(['-B'] if create else [])]

    def api(self, files=None, create=True):
        """The settings for the in-memory interface."""
        files = files or self.files
        strip = lambda d: {k.lstrip('@'): v for k, v in d.items()}
        d = {'inputFile': files[0], 'createIntertable': create, 'interpolationParallel': False, 'Parameter': {'shortName': self.case['short'], **strip(self.par)},
             'OutMaps': {'cloneMap': self.maps['clone'], 'unitTime': self.unit, 'Interpolation': {'latMap': self.maps['lat'], 'lonMap': self.maps['lon'], 'mode': self.case['mode'], **strip(self.interp)}}}
        if len(files) > 1:
            d['inputFile2'] = files[1]
        if self.agg:
            d['Aggregation'] = strip(self.agg)
        names = {'-s': 'start', '-e': 'end', '-D': 'dataDate', '-T': 'dataTime', '-m': 'perturbationNumber'}
        for k, v in zip(self.options[::2], self.options[1::2]):
            d[names[k]] = v
        return d

    # -- what it stands for
    def weights(self, i):
        """cells x points of grid i, or None if the choice of neighbours is not certain."""
        c, src, mode = self.case, self.src[i], self.case['mode']
        la, lo = self.lat.ravel(), self.lon.ravel()
        W = np.zeros((la.size, src['values'].size))
        if mode in scene.GRIB_MODES:
            with open(self.clean[i], 'rb') as f:
                gid = ec.codes_grib_new_from_file(f)
            for k, (a, o) in enumerate(zip(la.tolist(), lo.tolist())):
                if self.bad.ravel()[k]:
                    continue
                r = ec.codes_grib_find_nearest(gid, a, o) if mode == 'grib_nearest' else ec.codes_grib_find_nearest(gid, a, o, npoints=4)
                idx, d = np.array([x['index'] for x in r]), np.array([x['distance'] for x in r])
                if mode == 'grib_nearest':
                    W[k, idx[0]] = 1
                else:
                    np.add.at(W[k], idx, 1 / d / (1 / d).sum())
            ec.codes_release(gid)
            return W
        d = scene.chords(la, lo, src['lats'], src['lons'])
        order = np.argsort(d, axis=1, kind='stable')
        ds = np.take_along_axis(d, order, 1)
        n = 1 if mode == 'nearest' else 4
        good = ~self.bad.ravel()
        if ((ds[:, n] - ds[:, n - 1])[good] < 1e-5 * ds[good, n]).any():
            return None
        for k in range(la.size):
            if n == 1:
                W[k, order[k, 0]] = 1
            else:
                x = 1 / ds[k, :4] ** 2
                W[k, order[k, :4]] = x / x.sum()
        return W

    def aggregated(self, kind, F, start, end, force):
        """{end step: field} from fields on one grid, None if not defined."""
        c, a = self.case, self.case['a']
        if kind == 'accumulation':
            r = aggr.accumulation(F, a, self.unit, start, end, force)
        elif kind == 'average':
            r = aggr.average(F, a, start, end)
        elif kind == 'instantaneous':
            r = aggr.instantaneous(F, a, start, end)
        else:
            r = {}
            for t in range(start or a, end + 1, a):
                if t - a not in F or t not in F:
                    return None
                r[(t - a, t)], even = aggr.average_half_window(F, t - a, t)
                if not even:
                    return None
        return {k[1]: v for k, v in r.items()}

    def expected(self):
        """[(end step, 2D map with nan)] in order, or None when the documentation does not settle it."""
        c, a, kind = self.case, self.case['a'], self.case['kind']
        fun = FUNCTIONS[c['conv']] if c['conv'] else (lambda x: x)
        F = [{s: fun(v) for s, v in f.items()} for f in self.F]
        S = self.S
        start, end = self.start or 0, self.end if self.end is not None else S[-1]
        force = kind == 'accumulation' and c['force']
        fields = {}         # end step -> (grid, field)
        if kind is None:
            if start == end:
                return None
            for i in (0, 1):
                for s, v in F[i].items() if i < len(F) else ():
                    if start <= s <= end:
                        fields[s] = (i, v)
        elif not c['two']:
            if S[-1] < a or end < (start or a):
                return None
            if kind == 'instantaneous' and S[0] > 0 and aggr.instant_start(start, a, 'instant', 0) < S[0]:
                # zeros before the first message: only without step 0
                pass
            if force and 0 in F[0] and a not in F[0]:
                return None
            r = self.aggregated(kind, F[0], start, end, force)
            if r is None:
                return None
            fields = {t: (0, v) for t, v in r.items()}
        else:
            first, second = F
            ch = self.change
            if end < (start or a) or force:
                return None
            if kind == 'instantaneous':
                merged = {s: (0, v) for s, v in first.items() if s < ch}
                merged.update({s: (1, v) for s, v in second.items()})
                for t in range(aggr.instant_start(start, a, 'instant', 0), end + 1, a):
                    if t < min(merged):
                        return None
                    fields[t] = merged[aggr.next_available(merged, t)]
            else:
                border = ch if kind != 'average' else max(s for s in first if s <= ch)
                s0 = start or a
                if (border - s0) % a or border < s0 or end <= border:
                    return None
                r1 = self.aggregated(kind, first, s0, border, False)
                r2 = self.aggregated(kind, second, border + a, end, False) if end >= border + a else {}
                if r1 is None or r2 is None:
                    return None
                fields = {t: (0, v) for t, v in r1.items()}
                fields.update({t: (1, v) for t, v in r2.items()})
        if not fields:
            return None
        W = {}
        out = []
        shape = self.lat.shape
        for t in sorted(fields):
            i, f = fields[t]
            v, m = aggr.split(f)
            if c['conv'] in CUT:
                v = np.where(v < 0, 0, v)
            if i not in W:
                W[i] = self.weights(i)
                if W[i] is None:
                    return None
            miss = (W[i] * m).sum(1) > 0
            x = W[i] @ np.where(m, 0, v)
            x = np.where(miss | self.bad.ravel(), np.nan, x).reshape(shape)
            if c['corr']:
                z = world.read_grib(self.gems[i])[0]['values']
                gem = (W[i] @ eval(GEMS[c['corr'][1]], {'z': z})).reshape(shape)
                with np.errstate(all='ignore'):
                    x2 = eval(FORMULAS[c['corr'][0]], {'p': x, 'gem': gem, 'dem': self.dem, 'where': np.where})
                x = np.where(np.isnan(x), np.nan, x2)
            out.append((t, np.where(self.cl, np.nan, x)))
        self.used = sorted(W)
        return out


def written(w, fmt, out, prefix='o'):
    """[(end step or None, map)] as written, in order."""
    if fmt == 'netcdf':
        f = [x for x in sorted(os.listdir(out)) if x.endswith('.nc')]
        if len(f) != 1:
            return []
        d = world.read_nc(os.path.join(out, f[0]), prefix)
        return [(int(t), v) for t, v in zip(d['time'], d['values'])]
    m = w.pcr_outputs(out)
    return [(None, m[k]) for k in sorted(m)]


def difference(got, want, fmt, mode=''):
    """None or the first difference."""
    if len(got) != len(want):
        return f'{len(got)} maps {[t for t, _ in got]}, expected {len(want)} {[t for t, _ in want]}'
    for (gt, g), (t, x) in zip(got, want):
        if gt is not None and gt != t:
            return f'steps {[t for t, _ in got]}, expected {[t for t, _ in want]}'
        if g.shape != x.shape:
            return f'map of step {t} of shape {g.shape}, expected {x.shape}'
        scale = max(1.0, float(np.nanmax(np.abs(x)))) if (~np.isnan(x)).any() else 1.0
        tol = (3e-6 if fmt != 'netcdf' else 1e-7 if mode == 'invdist' else 1e-9) * scale
        bad = (np.isnan(g) != np.isnan(x)) | (np.abs(np.where(np.isnan(g), 0, g) - np.where(np.isnan(x), 0, x)) > tol)
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            return f'map of step {t}, cell {i} is {g[i]!r}, expected {x[i]!r}'
    return None
