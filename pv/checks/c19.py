"""C19 the geopotential registry."""
import json
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from .. import world
from ..engine import Check, Known, Sub, Violation, expect, fail

# grids with different identifiers: the identifier does not have latitudes (known finding)
GRIDS = [dict(type='regular_ll', ni=3, nj=3, lat0=50.0, lon0=5.0, dlat=1.0, dlon=1.0), dict(type='regular_ll', ni=4, nj=3, lat0=50.0, lon0=5.0, dlat=1.0, dlon=1.0), dict(type='regular_ll', ni=3, nj=4, lat0=50.0, lon0=5.0, dlat=1.0, dlon=1.0),
         dict(type='regular_ll', ni=3, nj=3, lat0=50.0, lon0=6.0, dlat=1.0, dlon=1.0), dict(type='regular_ll', ni=3, nj=3, lat0=50.0, lon0=5.0, dlat=1.0, dlon=0.5), dict(type='regular_ll', ni=3, nj=3, lat0=50.0, lon0=350.0, dlat=1.0, dlon=1.0)]
NAMES = ['geo.grb', 'geo.grb', 'geo.grb', 'geo_1.grb', 'geo_2.grb', 'a b.grib', 'noext', 'x.y.z', 'other.grb', 'geo_1_1.grb', 'geo', 'geo.grb.2', 'xgeo.grb', 'GEO.grb']
OP = ['add', 'add', 'add', 'remove', 'remove', 'other', 'restart', 'gone', 'back', 'extra', 'global file', 'bad add', 'elsewhere', 'rewrite source']


@st.composite
def history_case(draw):
    n = draw(st.integers(2, 14))
    ops = [dict(op=draw(st.sampled_from(OP)), grid=draw(st.integers(0, len(GRIDS) - 1)), version=draw(st.integers(0, 2)), name=draw(st.integers(0, len(NAMES) - 1)), via=draw(st.sampled_from(['class', 'class', 'configuration', 'command line'])),
                path=draw(st.sampled_from(['absolute', 'absolute', 'relative', 'dot', 'in the data folder'])), k=draw(st.integers(0, 5)), flavour=draw(st.sampled_from(['z1', 'z2', 'orog', 'many'])))
           for _ in range(n)]
    return dict(ops=ops, globals_=draw(st.lists(st.integers(0, len(GRIDS) - 1), max_size=2, unique=True)), where=draw(st.sampled_from(['both', 'no global folder'])))


def bytes_of(path):
    with open(path, 'rb') as f:
        return f.read()


def geo_file(path, grid, version, flavour, known):
    """A file with the geopotential of a grid."""
    n = grid['ni'] * grid['nj']
    v = np.arange(n) * 10.0 + 1000 * version
    m = dict(grid=grid, values=v, shortName='z', edition=2 if flavour == 'z2' else 1)
    other = dict(grid=dict(grid, ni=grid['ni'] + 5), values=np.zeros((grid['ni'] + 5) * grid['nj']), shortName='2t', end=6, edition=1)
    if flavour == 'orog':
        m.update(shortName='orog', edition=2)
    if flavour == 'many':
        world.write_grib(path, [other, m, dict(m, values=v + 5)])
    else:
        world.write_grib(path, [m])
    return path


class Model:
    def __init__(self):
        self.user = {}      # id -> (name, content as added)
        self.globals = {}   # id -> name


def history_check(case, rec):
    from pyg2p.exceptions import ApplicationException
    from pyg2p.main.config import Configuration, GeopotentialsConfiguration, UserConfiguration
    done = set()
    refused = renamed = 0
    with world.World() as w:
        ids = {}            # identifier of each grid, as the program has it
        model = Model()
        extra, gfolder = w.p('extra'), w.p('globalgeo')
        os.makedirs(extra)
        os.makedirs(gfolder)
        os.makedirs(w.p('configuration', 'global'))
        os.makedirs(w.p('src'))
        src = {}

        def source(g, version, flavour, name, folder):
            os.makedirs(folder, exist_ok=True)
            return geo_file(os.path.join(folder, name), GRIDS[g], version, flavour, ids)

        # the identifiers, and the global configuration
        from pyg2p.main.readers.grib import GRIBReader
        for g in range(len(GRIDS)):
            p = source(g, 0, 'z1', 'g.grb', w.p('ids'))
            ids[g] = GRIBReader.get_id(p, reader_args={'shortName': ['z']})
        expect(len(set(ids.values())) == len(ids), lambda: f'grids share identifiers: {ids}')
        for i, g in enumerate(case['globals_']):
            name = ['geo.grb', 'global.grb'][i]
            source(g, 7, 'z1', name, gfolder)
            model.globals[g] = name
        if case['globals_']:
            with open(w.p('configuration', 'global', 'geopotentials.json'), 'w') as f:
                json.dump({ids[g]: n for g, n in model.globals.items()}, f)
        if case['where'] == 'both':
            with open(w.p('configuration', 'global', 'global_conf.json'), 'w') as f:
                json.dump({'geopotentials': gfolder}, f)
        fresh = lambda: GeopotentialsConfiguration(UserConfiguration())
        live = fresh()

        def attempt(f, *a):
            with world.collected_log():
                try:
                    return f(*a), None
                except ApplicationException as e:
                    return None, e

        def look(conf, g, additional):
            """What a look-up has to give: content or None."""
            name = model.user[g][0] if g in model.user else model.globals.get(g)
            path, err = attempt(conf.get_filepath, ids[g], additional) if additional else attempt(conf.get_filepath, ids[g])
            if name is None:
                expect(path is None, lambda: f'grid {g} is not registered, but resolves to {path}')
                return
            folders = [additional, w.geos, gfolder if case['where'] == 'both' else None]
            want = next((os.path.join(d, name) for d in folders if d and os.path.isfile(os.path.join(d, name))), None)
            if want is None:
                expect(path is None, lambda: f'the file {name} of grid {g} is gone, but resolves to {path}')
                return
            expect(path is not None, lambda: f'grid {g} with file {want} does not resolve: {err}')
            expect(os.path.realpath(path) == os.path.realpath(want), lambda: f'grid {g} resolves to {path}, registered as {want}')

        def check_all(after):
            for conf, what in ((fresh(), 'after restart'), (live, 'now')):
                for g in ids:
                    for additional in (None, extra):
                        try:
                            look(conf, g, additional)
                        except Violation as e:
                            fail(f'{after}, {what}: {e}')
            for g, (name, content) in model.user.items():
                p = os.path.join(w.geos, name)
                if os.path.isfile(p):
                    expect(bytes_of(p) == content, lambda: f'{after}: the file {name} of grid {g} is not the one added')

        check_all('at the start')
        for o in case['ops']:
            g, op = o['grid'], o['op']
            registered = sorted(model.user)
            if op in ('add', 'elsewhere'):
                name = NAMES[o['name']]
                folder = w.geos if o['path'] == 'in the data folder' else w.p('src', str(o['k']))
                if o['path'] == 'in the data folder' and any(n == name for n, _ in model.user.values()):
                    # would overwrite what is registered
                    continue
                p = source(g, o['version'], o['flavour'], name, folder)
                content = bytes_of(p)
                arg = os.path.relpath(p) if o['path'] == 'relative' else './' + os.path.relpath(p) if o['path'] == 'dot' else p
                before = world.snapshot(w.geos)
                conf_before = world.snapshot(w.conf)
                if op == 'elsewhere':
                    # another instance of the configuration, as another program
                    _, err = attempt(fresh().add, arg)
                    ok = err is None
                elif o['via'] == 'class':
                    _, err = attempt(live.add, arg)
                    ok = err is None
                elif o['via'] == 'configuration':
                    c = Configuration()
                    _, err = attempt(c.add_geopotential, arg)
                    ok, live = err is None, c.geopotentials
                else:
                    r = w.run('-g', arg)
                    expect(r.exc is None, lambda: f'adding raised {r}')
                    ok, err = r.status == 0, r
                what = f'adding {name} of grid {g} ({o["via"]}, {o["path"]})'
                if g in model.user or g in model.globals:
                    refused += 1
                    expect(not ok, f'{what}: the grid has a file, but it was not refused')
                    expect(world.snapshot(w.geos) == before, f'{what} was refused, but the data folder changed')
                    expect(json_of(world.snapshot(w.conf)) == json_of(conf_before), f'{what} was refused, but the configuration changed')
                else:
                    expect(ok, lambda: f'{what} failed: {err}')
                    names = set(model.user) and {n for n, _ in model.user.values()} or set()
                    c = fresh()
                    path, err = attempt(c.get_filepath, ids[g])
                    expect(path is not None, lambda: f'{what}: the grid does not resolve: {err}')
                    expect(os.path.dirname(os.path.realpath(path)) == os.path.realpath(w.geos), lambda: f'{what}: resolves to {path}, not in the folder of the user')
                    expect(bytes_of(path) == content, f'{what}: resolves to a file with another content')
                    new = os.path.basename(path)
                    expect(new not in names and new not in model.globals.values(), lambda: f'{what}: the name {new} is the one of another grid')
                    renamed += new != name
                    for f, b in before.items():
                        n = os.path.basename(f)
                        if n in names:
                            expect(os.path.isfile(f) and bytes_of(f) == b, f'{what}: the file {n} of another grid changed')
                    model.user[g] = (new, content)
                    expect(bytes_of(p) == content, f'{what}: the file given was changed')
                if op == 'elsewhere' or o['via'] == 'command line':
                    # what the live instance finds is not judged before it does something: see "other"
                    live = fresh() if o['k'] % 2 or not ok else live
                    if not (o['k'] % 2 or not ok):
                        stale = live
                        live = fresh()
                        # the earlier instance goes on
                        nxt = [x for x in range(len(GRIDS)) if x not in model.user and x not in model.globals]
                        if nxt:
                            h = nxt[0]
                            q = source(h, 1, 'z1', f'late{h}.grb', w.p('src', 'late'))
                            _, err = attempt(stale.add, q)
                            expect(err is None, lambda: f'adding by an earlier instance failed: {err}')
                            model.user[h] = (f'late{h}.grb', bytes_of(q))
                            live = stale
            elif op in ('remove', 'other'):
                if op == 'remove' and registered:
                    h = registered[o['k'] % len(registered)]
                    name = model.user.pop(h)[0]
                elif o['k'] % 2 and model.globals:
                    # files of the global configuration are not the user's
                    name = sorted(model.globals.values())[0]
                else:
                    # no file of the user, though near to one
                    near = model.user[registered[o['k'] % len(registered)]][0] if registered else 'geo.grb'
                    name = ['unknown.grb', near[:-1], near + 'x', near[1:], near.upper(), near.lower(), 'a.grb', near.split('.')[0], '*', ids[g], near + '.1'][(o['version'] * 5 + o['name'] + o['k']) % 11]
                    if any(name == n for n, _ in model.user.values()) or not name:
                        name = 'unknown.grb'
                if o['via'] == 'configuration':
                    c = Configuration()
                    _, err = attempt(c.remove_geopotential, name)
                    live = c.geopotentials
                else:
                    _, err = attempt((live if o['via'] == 'class' else fresh()).remove, name)
                    if o['via'] != 'class':
                        live = fresh()
                what = f'removing {name}'
                expect(err is None, lambda: f'{what} failed: {err}')
            elif op == 'restart':
                live, what = fresh(), 'restart'
            elif op == 'gone' and registered:
                name = model.user[registered[o['k'] % len(registered)]][0]
                what = f'deleting {name}'
                if os.path.exists(os.path.join(w.geos, name)):
                    os.unlink(os.path.join(w.geos, name))
            elif op == 'back' and registered:
                name, content = model.user[registered[o['k'] % len(registered)]]
                what = f'restoring {name}'
                with open(os.path.join(w.geos, name), 'wb') as f:
                    f.write(content)
            elif op == 'extra' and (registered or model.globals):
                names = sorted({n for n, _ in model.user.values()} | set(model.globals.values()))
                name = names[o['k'] % len(names)]
                p = os.path.join(extra, name)
                what = f'{name} in the additional folder'
                if os.path.exists(p):
                    os.unlink(p)
                else:
                    geo_file(p, GRIDS[0], 9, 'z1', ids)
            elif op == 'global file' and (registered or model.globals):
                names = sorted({n for n, _ in model.user.values()} | set(model.globals.values()))
                name = names[o['k'] % len(names)]
                p = os.path.join(gfolder, name)
                what = f'{name} in the global folder'
                if os.path.exists(p):
                    os.unlink(p)
                else:
                    geo_file(p, GRIDS[0], 8, 'z1', ids)
            elif op == 'bad add':
                # no geopotential, no GRIB, no file, a folder
                p = w.p('src', 'bad.grb')
                kind = o['k'] % 4
                if kind == 0:
                    world.write_grib(p, [dict(grid=GRIDS[g], values=np.zeros(GRIDS[g]['ni'] * GRIDS[g]['nj']), shortName='2t', end=6, edition=1)])
                elif kind == 1:
                    with open(p, 'wb') as f:
                        f.write(b'not a GRIB file')
                elif kind == 2:
                    p = w.p('src', 'none.grb')
                else:
                    p = w.p('src')
                before, conf_before = world.snapshot(w.geos), world.snapshot(w.conf)
                r = w.run('-g', p)
                what = f'adding {p}'
                expect(r.exc is None and r.status not in (0, None), lambda: f'{what}: {r}')
                expect(world.snapshot(w.geos) == before and json_of(world.snapshot(w.conf)) == json_of(conf_before), f'{what} was refused, but something changed')
                refused += 1
            else:
                continue
            done.add(op)
            check_all(what)
        # and once more with nothing in memory
        check_all('at the end')
    rec.label(*done, *(['refused'] if refused else []), *(['renamed'] if renamed else []), *(['global configuration'] if case['globals_'] else []), f'{min(len(model.user), 4)} at the end')
    rec.hit(len(done) > 1 and 'add' in done and (bool(model.user) or 'remove' in done))


def json_of(snap):
    # other files are made when missing
    return {k: json.loads(v) for k, v in snap.items() if k.endswith('geopotentials.json')}


# ------------------------------------------------------------------ known finding
def probe():
    """Grids which differ only in their latitudes."""
    with world.World() as w:
        g = GRIDS[0]
        a, b = geo_file(w.p('a.grb'), g, 0, 'z1', None), geo_file(w.p('b.grb'), dict(g, lat0=-10.0), 1, 'z1', None)
        if w.run('-g', a).status != 0:
            return False
        return w.run('-g', b).status != 0


CHECK = Check(
    'C19', [Sub('histories', history_case, history_check, 1800, 60000,
                rule='additions (through class, configuration and command line, all kinds of files, names and paths), removals, restarts, several instances, files which disappear and come back, additional and global folders; after each '
                     'operation every grid is looked up with and without additional folder, before and after restart; non-trivial: two kinds of operations, among them an addition')],
    rule='every look-up against a model of the registry and the content of the folders',
    known=[Known('C19-latitudes', 'grids which differ only in latitudes have the same identifier: the geopotential of the second is refused as existing, and the one of the first would be used', probe)],
    assumptions=['grids differ in longitudes, number of points or type (known finding C19-latitudes)', 'instances of the configuration other than the one which adds or removes see changes after restart'], quick_s=60)
