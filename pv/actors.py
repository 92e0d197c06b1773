"""Commands of users which create tables and change registries, whole, interrupted or at the same time (C26, C27)."""
import json
import os
import resource
import signal
import sys

import numpy as np
from hypothesis import strategies as st

from . import world
from .engine import expect

MODES = ('grib_nearest', 'grib_invdist', 'nearest', 'invdist', 'bilinear')


@st.composite
def scene(draw):
    """Two sources and two targets whose tables would have the same names, and geopotential files with the same name."""
    return dict(seed=draw(st.integers(0, 99)), masked=draw(st.booleans()), names=draw(st.sampled_from([['in.grb', 'in.grb'], ['in.grb', 'other.grb'], ['i_1.grb', 'i.grb']])),
                modes=draw(st.lists(st.sampled_from(MODES), min_size=1, max_size=2, unique=True)), geo=draw(st.sampled_from([['z.grb', 'z.grb'], ['z.grb', 'z_1.grb']])))


@st.composite
def action(draw, sc, kinds=('run', 'run', 'run', 'add', 'remove')):
    kind = draw(st.sampled_from(kinds))
    if kind == 'run':
        return dict(op='run', s=draw(st.integers(0, 1)), t=draw(st.integers(0, 1)), m=draw(st.integers(0, len(sc['modes']) - 1)), fmt=draw(st.sampled_from(['pcraster', 'netcdf'])), agg=draw(st.sampled_from([False, False, True])))
    return dict(op=kind, s=draw(st.integers(0, 1)))


class Scene:
    def __init__(self, w, sc):
        self.w, self.sc = w, sc
        self.count = 0
        self.files, self.geo, self.maps, self.commands, self.expected = [], [], [], {}, {}
        rng = np.random.default_rng(sc['seed'])
        for s in range(2):
            grid = dict(type='regular_ll', ni=5 + s, nj=5, lat0=50.0, lon0=5.0, dlat=1.0, dlon=1.0)
            n = grid['ni'] * grid['nj']
            os.makedirs(w.p(f'src{s}'))
            miss = np.zeros(n, bool)
            miss[rng.permutation(n)[:2]] = sc['masked']
            self.files.append(world.write_grib(w.p(f'src{s}', sc['names'][s]), [dict(grid=grid, values=rng.uniform(0, 300, n), missing=miss if sc['masked'] else None, end=e) for e in (6, 12)]))
            os.makedirs(w.p(f'geo{s}'))
            self.geo.append(world.write_grib(w.p(f'geo{s}', sc['geo'][s]), [dict(grid=grid, values=rng.uniform(0, 5000, n), shortName='z')]))
        for t in range(2):
            lo, la = np.meshgrid(6.3 + t + 0.8 * np.arange(2), 48.6 - 0.6 * np.arange(2))
            self.maps.append(w.target(la, lo, tag=f'_{t}', geo=(10.0 * t, 1.0, 0.0, 10.0, 0.0, -1.0)))
        for f in self.geo:
            with open(f, 'rb') as fh:
                self.geo[self.geo.index(f)] = (f, fh.read())

    def key(self, a):
        return a['s'], a['t'], a['m'], a['fmt'], a['agg']

    def prepare(self, actions):
        """Commands and what they give, from tables in a folder of their own."""
        w = self.w
        for a in actions:
            if a['op'] == 'run' and self.key(a) not in self.commands:
                self.commands[self.key(a)] = w.command(f'c{len(self.commands)}.json', self.maps[a['t']], self.sc['modes'][a['m']], outmaps={'@namePrefix': 'o', '@format': a['fmt']},
                                                       aggregation={'@step': 6, '@type': 'average'} if a['agg'] else None)
        ref = w.p('reference')
        os.makedirs(ref)
        w.write_conf('paths.conf', {'INTERTABLES': ref, 'GEOPOTENTIALS': ref})
        for a in actions:
            if a['op'] == 'run' and self.key(a) not in self.expected:
                argv, out = self.argv(a)
                r = w.run(*argv)
                m = w.maps(a['fmt'], out=out)
                expect(r.status == 0 and len(m) > 0, lambda: f'undisturbed run {a}: {r}, {len(m)} maps')
                self.expected[self.key(a)] = m
        for f in os.listdir(w.conf):
            os.remove(os.path.join(w.conf, f))
        w.write_conf('paths.conf', {'INTERTABLES': w.tables, 'GEOPOTENTIALS': w.geos})
        w.write_json('parameters.json', world.DEFAULT_PARAMETERS)

    def argv(self, a, create=True):
        """Arguments, and the output folder."""
        if a['op'] == 'run':
            self.count += 1
            out = self.w.p(f'out{self.count}')
            os.makedirs(out)
            return ['-c', self.commands[self.key(a)], '-i', self.files[a['s']], '-o', out] + (['-B'] if create else []), out
        if a['op'] == 'add':
            return ['-g', self.geo[a['s']][0]], None
        return ['remove', self.registered(self.sc_id(a['s'])) or 'nothing.grb'], None

    def do(self, argv):
        if argv[0] != 'remove':
            return self.w.run(*argv)
        # not in the command line
        from pyg2p.main.config import Configuration
        try:
            Configuration().remove_geopotential(argv[1])
        except Exception as e:
            return world.Result(1, None, [repr(e)])
        return world.Result(0, None, [])

    def sc_id(self, s):
        from pyg2p.main.readers import GRIBReader
        return GRIBReader.get_id(self.geo[s][0], reader_args={'shortName': ['z']})

    def registry(self, name):
        p = os.path.join(self.w.conf, name + '.json')
        if not os.path.exists(p):
            return {}
        with open(p) as f:
            text = f.read()
        try:
            d = json.loads(text)
        except ValueError:
            d = None
        expect(isinstance(d, dict), lambda: f'{name}.json has become {text[:60]!r}')
        return d

    def registered(self, id_):
        return self.registry('geopotentials').get(id_)

    def same(self, a, out, what):
        got, want = self.w.maps(a['fmt'], out=out), self.expected[self.key(a)]
        expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True), lambda: f'{what}: {got.shape} maps which are not those of an undisturbed run: {got.tolist()} for {want.tolist()}')

    def again(self, a, what, create):
        """The command once more, undisturbed."""
        argv, out = self.argv(a, create)
        r = self.do(argv)
        if a['op'] == 'run':
            expect(r.status == 0, lambda: f'{what}: {r}')
            self.same(a, out, what)
        elif a['op'] == 'add':
            name = self.registered(self.sc_id(a['s']))
            expect(name, lambda: f'{what}: not registered, {r}')
            p = os.path.join(self.w.geos, name)
            got = open(p, 'rb').read() if os.path.exists(p) else b''
            expect(got == self.geo[a['s']][1], lambda: f'{what}: the registered {name} has {len(got)} bytes which are not the {len(self.geo[a["s"]][1])} of the file')
        else:
            expect(r.status == 0 and not self.registered(self.sc_id(a['s'])), lambda: f'{what}: still registered, {r}')


def watch(roots, on_event, reads=False):
    """Calls on_event(k, event, path) before each change (and, if wanted, opening) of files below the roots. For children only: it can't be undone."""
    n = [0]
    busy = [False]
    roots = tuple(os.path.realpath(r) + os.sep for r in roots)

    def hook(event, args):
        if busy[0] or event not in ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.link', 'os.truncate', 'shutil.copyfile', 'os.listdir'):
            return
        path = args[0]
        if not isinstance(path, str):
            return
        if event == 'open':
            flags = args[2] if isinstance(args[2], int) else 0
            if not reads and not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                return
        elif event == 'os.listdir' and not reads:
            return
        if not (os.path.abspath(path) + os.sep).startswith(roots):
            return
        busy[0] = True
        try:
            k = n[0]
            n[0] += 1
            on_event(k, event, path)
        finally:
            busy[0] = False

    sys.addaudithook(hook)


def limit_files(size, die):
    """No file can grow over size: the process is killed there, or the write fails as on a full disk."""
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if die else signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
