"""C12 runs do not depend on earlier runs in the same process."""
import gzip
import json
import os
import pickle
import select
import shutil
import signal
import struct

import netCDF4
import numpy as np
from hypothesis import strategies as st

from .. import world
from ..boot import HarnessError
from ..engine import Check, Sub, expect
from . import c10

MODES = ('grib_nearest', 'grib_nearest', 'grib_nearest', 'grib_invdist', 'nearest', 'nearest', 'invdist', 'adw', 'bilinear')
GRIDS = [dict(type='regular_ll', ni=4, nj=4, lat0=50.0, lon0=5.0, dlat=1.0, dlon=1.0), dict(type='regular_ll', ni=7, nj=6, lat0=50.0, lon0=5.0, dlat=0.5, dlon=0.5)]
IDS = ['5$8$4$4$16$regular_ll', '5$8$7$6$42$regular_ll']
FUNCTIONS = ['x=x*2-5', 'x=x*3', 'x=x+100', 'x=x', 'x=x-280']


@st.composite
def run_(draw):
    src = draw(st.sampled_from(['s0', 's0', 's0', 's1', 's1', 's2', 's3', 's4', 'bad', 'nothing']))
    o = dict(op='run', how=draw(st.sampled_from(['cli', 'cli', 'cli', 'api', 'command'])), src=src, target=draw(st.sampled_from([0, 0, 1])), mode=draw(st.sampled_from(MODES)),
             conv=draw(st.sampled_from([None, 'aff', 'aff', 'k2c_cut'])) if src != 's3' else draw(st.sampled_from([None, 'm2mm'])), corr=src != 's3' and draw(st.booleans()), fmt=draw(st.sampled_from(['pcraster', 'netcdf'])),
             create=draw(st.sampled_from([True, True, True, False])), level=draw(st.sampled_from([None, None, 'ERROR', 'DEBUG'])), agg=draw(st.sampled_from([None, None, ['instantaneous', 6], ['average', 12], ['accumulation', 6]])),
             extra=draw(st.sampled_from([None, None, None, ['-s', 12], ['-e', 12], ['-n', 'abc'], ['-f', 3], ['-m', 1], ['-s', 12, '-e', 6]])), ndir=draw(st.sampled_from([False, False, True])),
             broken=draw(st.sampled_from([None] * 7 + ['mode', 'variable', 'conversion', 'missing map', 'parameter'])))
    if o['agg'] and o['agg'][0] == 'accumulation' and src != 's3' and draw(st.booleans()):
        o['agg'] = None
    if o['agg'] and o['agg'][0] in ('average', 'instantaneous') and src == 's3' and draw(st.booleans()):
        o['agg'] = ['accumulation', 6]
    return o


@st.composite
def edit_(draw):
    k = draw(st.sampled_from(['conversion', 'conversion', 'conversion gone', 'parameter gone', 'variable', 'variable', 'variable gone', 'variable gone', 'dem', 'maps', 'clone', 'grib', 'grib', 'table changed', 'table changed', 'table deleted', 'forget tables', 'forget geopotentials', 'geopotential', 'global', 'global', 'add', 'add', 'add']))
    return dict(op=k, n=draw(st.integers(0, 4)))


@st.composite
def case_(draw):
    base = draw(run_())
    if draw(st.sampled_from([True, True, True, True, False])):
        # one that works
        base.update(broken=None, create=True)
        if base['src'] in ('bad', 'nothing'):
            base['src'] = 's0'
        if base['src'] == 's3':
            base['agg'] = draw(st.sampled_from([None, ['accumulation', 6]]))
        if base['extra'] in (['-m', 1], ['-s', 12, '-e', 6]):
            base['extra'] = None
    ops = []
    if base['corr'] or draw(st.booleans()):
        ops = [dict(op='add', n=0), dict(op='add', n=1)] if draw(st.integers(0, 3)) else [dict(op='global', n=draw(st.integers(0, 1)))]
    for _ in range(draw(st.integers(2, 6))):
        x = draw(st.integers(0, 9))
        if x < 3:
            ops.append(draw(run_()))
        elif x < 5:
            ops.append(dict(base))
        elif x < 7:
            # the same run again with one change
            o = dict(base)
            key = draw(st.sampled_from(['src', 'target', 'mode', 'conv', 'corr', 'fmt', 'how', 'agg', 'extra', 'create', 'ndir']))
            o[key] = draw(run_())[key]
            ops.append(o)
        else:
            ops.append(draw(edit_()))
    ops.append(dict(base))
    return dict(ops=ops, seed=draw(st.integers(0, 999)))


# ------------------------------------------------------------------ processes
def perform(req):
    """In a worker: (status, exception, values of the in-memory interface)."""
    c10.quick_progress()
    if req['how'] == 'api':
        from pyg2p.main.api import ApiContext, Pyg2pApi
        try:
            api = Pyg2pApi(ApiContext(req['dict']))
            out = api.execute()
            return None, None, [(int(s.start_step), int(s.end_step), np.asarray(v)) for s, v in out.items()]
        except Exception as e:
            return None, f'{type(e).__name__}: {e}', None
    if req['how'] == 'command':
        from pyg2p.main.api import Command
        try:
            return Command(' '.join(str(a) for a in req['argv'])).run(), None, None
        except Exception as e:
            return None, f'{type(e).__name__}: {e}', None
    r = world.run_cli([str(a) for a in req['argv']])
    return r.status, None if r.exc is None else f'{type(r.exc).__name__}: {r.exc}', None


class Worker:
    """A process forked from the checking one, which itself never runs pyg2p."""

    def __init__(self, cwd):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                os.close(b)
                os.close(c)
                os.chdir(cwd)
                inp, out = os.fdopen(a, 'rb'), os.fdopen(d, 'wb')
                while True:
                    h = inp.read(8)
                    if len(h) < 8:
                        break
                    req = pickle.loads(inp.read(struct.unpack('Q', h)[0]))
                    res = pickle.dumps(perform(req))
                    out.write(struct.pack('Q', len(res)) + res)
                    out.flush()
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.out, self.inp = os.fdopen(b, 'wb'), os.fdopen(c, 'rb')

    def ask(self, req):
        data = pickle.dumps(req)
        self.out.write(struct.pack('Q', len(data)) + data)
        self.out.flush()
        if not select.select([self.inp], [], [], 120)[0]:
            return 'no answer after 120 s', None, None
        h = self.inp.read(8)
        if len(h) < 8:
            return 'the process died', None, None
        return pickle.loads(self.inp.read(struct.unpack('Q', h)[0]))

    def close(self):
        self.out.close()
        self.inp.close()
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


# ------------------------------------------------------------------ the state of the disk
def content(path):
    if path.endswith('.nc'):
        try:
            nc = netCDF4.Dataset(path)
        except OSError:
            return open(path, 'rb').read()
        nc.set_auto_maskandscale(False)
        out = [nc.data_model, {k: str(nc.getncattr(k)) for k in nc.ncattrs() if k != 'history'}]
        for n, v in nc.variables.items():
            x = v[:]
            out.append((n, v.dtype.str, v.dimensions, {k: str(v.getncattr(k)) for k in v.ncattrs()}, np.asarray(x).tobytes()))
        nc.close()
        return repr(out)
    with open(path, 'rb') as f:
        data = f.read()
    if path.endswith('.gz'):
        try:
            return gzip.decompress(data)
        except (OSError, EOFError):
            return data
    if path.endswith('.json'):
        try:
            return json.loads(data)
        except ValueError:
            return data
    return data


def state(*folders):
    out = {}
    for folder in folders:
        for root, _, names in os.walk(folder):
            for n in names:
                p = os.path.join(root, n)
                out[os.path.join(os.path.basename(folder), os.path.relpath(p, folder))] = content(p)
    return out


def show(x):
    return x if isinstance(x, (dict, str)) and len(str(x)) < 600 else str(x)[:600]


# ------------------------------------------------------------------ scenes
class Scene:
    def __init__(self, w, seed):
        self.w, self.rng, self.origin = w, np.random.default_rng(seed), 0
        self.params = json.loads(json.dumps(world.DEFAULT_PARAMETERS))
        for s in ('s0', 's1', 's2', 's3', 's4'):
            self.grib(s)
        with open(w.p('s0.grb'), 'rb') as f:
            data = f.read()
        with open(w.p('bad.grb'), 'wb') as f:
            f.write(data[:len(data) // 2 - 7])
        os.makedirs(w.p('geosrc'))
        for i in range(2):
            self.geopotential(w.p('geosrc', f'geo{i}.grb'), i)
        self.clone()
        for t in range(2):
            self.maps(t)
        for d in 'AB':
            os.makedirs(w.p('dem' + d))
            self.dem(d)
        self.conf('A')
        self.w.write_json('parameters.json', self.params)
        os.makedirs(w.p('ndir'))

    def grib(self, s):
        rng = self.rng

        def msg(g, step, short='2t', **k):
            n = GRIDS[g]['ni'] * GRIDS[g]['nj']
            miss = rng.random(n) < 0.15
            miss[0] = True
            return dict(grid=GRIDS[g], values=np.round(rng.uniform(250, 310, n), 2), shortName=short, end=step, missing=miss if s == 's1' else None, edition=1, **k)
        if s in ('s0', 's1'):
            m = [msg(int(s == 's1'), x) for x in (6, 12)]
        elif s == 's2':
            m = [msg(0, 6), msg(0, 12), msg(0, 0, 'z')]
        elif s == 's3':
            m = [msg(0, x, 'tp', stepType='accum') for x in (6, 12, 18)]
        else:
            m = [msg(0, 6), msg(0, 12), msg(1, 18), msg(1, 24)]
        world.write_grib(self.w.p(f'{s}.grb'), m)

    def geopotential(self, path, i):
        n = GRIDS[i]['ni'] * GRIDS[i]['nj']
        world.write_grib(path, [dict(grid=GRIDS[i], values=np.round(self.rng.uniform(0, 9000, n)), shortName='z', edition=1)])

    def maps(self, t):
        """Each version has its own georeference: identifiers of the tables are not shared (known findings of C11)."""
        self.origin += 10
        la = 49.8 - float(self.rng.choice([0.3, 0.7, 1.1])) - 0.6 * np.arange(2)
        lo = 5.2 + float(self.rng.choice([0.0, 0.25, 0.8])) + 0.7 * np.arange(2)
        if t:
            la, lo = la - 0.1 * self.origin / 10 / 7, lo + 0.01 * self.origin / 10
            world.write_nc_map(self.w.p('t1.nc'), np.ones((2, 2)), la, lo)
        else:
            lo, la = np.meshgrid(lo, la)
            geo = (float(self.origin), 1.0, 0.0, 10.0, 0.0, -1.0)
            world.write_pcr(self.w.p('lat0.map'), la, geo)
            world.write_pcr(self.w.p('lon0.map'), lo, geo)

    def clone(self):
        world.write_pcr(self.w.p('clone.map'), np.ones((2, 2)), mask=self.rng.random((2, 2)) < 0.25)

    def dem(self, d):
        world.write_pcr(self.w.p('dem' + d, 'dem.map'), np.round(self.rng.uniform(0, 2000, (2, 2))))

    def conf(self, d):
        self.w.write_conf('vars.conf', {'MAPDIR': self.w.dir, **({'DEMDIR': self.w.p('dem' + d)} if d else {})})

    def edit(self, o):
        w, k, n = self.w, o['op'], o['n']
        if k == 'conversion':
            self.params['2t'] = self.params.pop('other', None) or self.params['2t']
            c = next(x for x in self.params['2t']['Conversion'] if x['@id'] in ('aff', 'gone'))
            c['@id'], c['@function'], c['@unit'] = 'aff', FUNCTIONS[n], f'U{n}'
            w.write_json('parameters.json', self.params)
        elif k == 'conversion gone':
            for c in self.params.get('2t', {}).get('Conversion', ()):
                if c['@id'] == 'aff':
                    c['@id'] = 'gone'
            w.write_json('parameters.json', self.params)
        elif k == 'parameter gone':
            if '2t' in self.params:
                self.params['other'] = self.params.pop('2t')
            w.write_json('parameters.json', self.params)
        elif k == 'variable gone':
            self.conf(None)
        elif k == 'variable':
            self.conf('AB'[n % 2])
        elif k == 'dem':
            self.dem('AB'[n % 2])
        elif k == 'maps':
            self.maps(n % 2)
        elif k == 'clone':
            self.clone()
        elif k == 'grib':
            self.grib(f's{n % 5}')
        elif k in ('table changed', 'table deleted'):
            for d in (w.tables, w.p('ndir')):
                for f in sorted(os.listdir(d)):
                    p = os.path.join(d, f)
                    if k == 'table deleted':
                        os.remove(p)
                        continue
                    with gzip.open(p) as z:
                        a = np.load(z)
                    if a.dtype.names:
                        a['indexes'] = a['indexes'][..., ::-1]
                    else:
                        a[2] = a[2][::-1]
                    with gzip.open(p, 'w') as z:
                        np.save(z, a)
        elif k in ('forget tables', 'forget geopotentials'):
            p = os.path.join(w.conf, 'intertables.json' if k == 'forget tables' else 'geopotentials.json')
            if os.path.exists(p):
                os.remove(p)
        elif k == 'geopotential':
            for f in sorted(os.listdir(w.geos)):
                self.geopotential(os.path.join(w.geos, f), int('geo1' in f))
        elif k == 'global':
            d = w.p('configuration', 'global')
            os.makedirs(d, exist_ok=True)
            for x in 'AB':
                os.makedirs(w.p('globalgeo' + x), exist_ok=True)
                for i in range(2):
                    self.geopotential(w.p('globalgeo' + x, f'geo{i}.grb'), i)
            for name, j in (('global_conf.json', {'geopotentials': w.p('globalgeo' + 'AB'[n % 2]), 'intertables': w.p('globaltables')}), ('geopotentials.json', {IDS[i]: f'geo{i}.grb' for i in range(2)})):
                with open(os.path.join(d, name), 'w') as f:
                    json.dump(j, f)

    def request(self, o, out):
        w = self.w
        if o['op'] == 'add':
            return dict(how='cli', argv=['-g', w.p('geosrc', f'geo{o["n"] % 2}.grb')])
        short = 'tp' if o['src'] == 's3' else '2t'
        b = o['broken']
        lat, lon = ('{MAPDIR}/lat0.map', '{MAPDIR}/lon0.map') if o['target'] == 0 else (w.p('t1.nc'),) * 2
        par = {'@applyConversion': o['conv']} if o['conv'] else {}
        if o['corr']:
            par.update({'@correctionFormula': 'p+gem-dem*0.0065', '@gem': '(z/9.81)*0.0065', '@demMap': '{DEMDIR}/dem.map'})
        mode = o['mode']
        if b == 'mode':
            mode = 'bogus'
        elif b == 'variable':
            lat = '{NOWHERE}/lat.map'
        elif b == 'conversion':
            par['@applyConversion'] = 'unknown'
        elif b == 'missing map':
            lon = w.p('nomap.map')
        elif b == 'parameter':
            short = 'unknown'
        om = {'@format': o['fmt'], '@namePrefix': 'o'}
        maps = dict(clone=w.p('clone.map'), lat=lat, lon=lon)
        agg = {'@type': o['agg'][0], '@step': o['agg'][1]} if o['agg'] else None
        src = w.p(o['src'] + '.grb')
        if o['how'] == 'api':
            strip = lambda d: {k.lstrip('@'): v for k, v in d.items()}
            d = {'inputFile': src, 'createIntertable': o['create'], 'interpolationParallel': False, 'Parameter': {'shortName': short, **strip(par)},
                 'OutMaps': {'cloneMap': maps['clone'], 'unitTime': 24, 'Interpolation': {'latMap': lat, 'lonMap': lon, 'mode': mode}}}
            if agg:
                d['Aggregation'] = strip(agg)
            if o['level']:
                d['loggerLevel'] = o['level']
            if o['ndir']:
                d['intertableDir'] = w.p('ndir')
            ex = o['extra'] or []
            for k, v in zip(ex[::2], ex[1::2]):
                d[{'-s': 'start', '-e': 'end', '-n': 'namePrefix', '-f': 'fmap', '-m': 'perturbationNumber'}[k]] = v
            return dict(how='api', dict=d)
        c = w.command(f'{out}.json', maps, mode, shortName=short, parameter=par, outmaps=om, aggregation=agg)
        argv = ['-c', c, '-i', src, '-o', w.p(out)]
        if o['create']:
            argv.append('-B')
        if o['level']:
            argv += ['-l', o['level']]
        if o['ndir']:
            argv += ['-N', w.p('ndir')]
        return dict(how=o['how'], argv=argv + (o['extra'] or []))


def check(case, rec):
    import pyg2p.main.api   # noqa: F401 (what every process has imported; none of it has run here)
    with world.World() as w:
        sc = Scene(w, case['seed'])
        conf = w.conf
        worker = Worker(w.dir)
        good, runs, seen = 0, 0, set()
        try:
            for i, o in enumerate(case['ops']):
                if o['op'] not in ('run', 'add'):
                    sc.edit(o)
                    seen.add(o['op'])
                    continue
                req = sc.request(o, f'out{i}')
                # the same files for both
                for p in (w.dir, conf):
                    shutil.copytree(p, p + '.copy', symlinks=True)
                here = worker.ask(req)
                a = state(w.dir, conf)
                for p in (w.dir, conf):
                    os.rename(p, p + '.used')
                    os.rename(p + '.copy', p)
                fresh = Worker(w.dir)
                try:
                    alone = fresh.ask(req)
                finally:
                    fresh.close()
                b = state(w.dir, conf)
                for p in (w.dir, conf):
                    shutil.rmtree(p)
                    os.rename(p + '.used', p)
                what = f'operation {i} {o} after {[x["op"] for x in case["ops"][:i]]}'
                expect(here[:2] == alone[:2], lambda: f'{what}: ended with {here[:2]}, alone {alone[:2]}')
                same = here[2] == alone[2] if here[2] is None or alone[2] is None else len(here[2]) == len(alone[2]) and all(x[:2] == y[:2] and x[2].shape == y[2].shape and np.array_equal(x[2], y[2], equal_nan=True) for x, y in zip(here[2], alone[2]))
                expect(same, lambda: f'{what}: returned {show(here[2])}, alone {show(alone[2])}')
                expect(sorted(a) == sorted(b), lambda: f'{what}: files {sorted(set(a) ^ set(b))} are there only {"after the earlier runs" if set(a) - set(b) else "when it runs alone"}')
                diff = [k for k in a if a[k] != b[k]]
                expect(not diff, lambda: f'{what}: {diff} differ: {show(a[diff[0]])} and alone {show(b[diff[0]])}')
                runs += 1
                good += (here[0] == 0 or here[2] is not None) and o['op'] == 'run'
                seen.add(o.get('how', o['op']))
        finally:
            worker.close()
            for p in (w.dir, conf):
                for x in ('.copy', '.used'):
                    if os.path.isdir(p + x):
                        shutil.rmtree(p if x == '.used' and os.path.isdir(p) else p + x, ignore_errors=True)
                        if x == '.used' and os.path.isdir(p + x):
                            os.rename(p + x, p)
    rec.label(*seen, f'{min(good, 4)} good runs', *(['failing runs'] if good < runs else []))
    rec.hit(good >= 2)


def warm():
    from . import c08
    c08.warm()


CHECK = Check(
    'C12', [Sub('sequences', case_, check, 480, 30000,
                rule='sequences of runs (command line, Command, in-memory interface, adding geopotentials; failing ones too) and changes of configuration, maps, tables, geopotentials and inputs between them, in one process; '
                     'each run is repeated in a new process on a copy of the files; non-trivial: two runs or more that produce maps')],
    rule='status, values and all files after each run against those of the same run in a new process; see the sub-check',
    assumptions=['a new process is a fork of one that has imported pyg2p and never used it', 'tables with different identifiers only (see the known findings of C11)'], quick_s=70, warm=warm)
