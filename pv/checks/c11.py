"""C11 stored interpolation tables."""
import gzip
import json
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from .. import world
from ..engine import Check, Known, Sub, expect
from . import c10

MODES = ('grib_nearest', 'grib_nearest', 'grib_invdist', 'nearest', 'invdist', 'bilinear', 'triangulation', 'bilinear_delaunay', 'adw')
DIRS = ('default', 'n1', 'n2', 'global', 'global')


@st.composite
def case_(draw):
    west = draw(st.sampled_from([0.0, 5.0, 100.0]))
    sources = [dict(ni=4 + i, nj=draw(st.integers(4, 5)), lon0=west + 5 * i, lat0=draw(st.sampled_from([50.0, 30.0])), name=draw(st.sampled_from(['in.grb', 'in.grb', 'other.grb', 'X.b-2.grib'])), steps=draw(st.sampled_from([[6], [6, 12]])), seed=draw(st.integers(0, 999)),
                    masked=draw(st.sampled_from([0, 0, 0, 2]))) for i in range(draw(st.sampled_from([2, 1, 2])))]
    targets = [dict(rows=draw(st.integers(1, 3)), cols=2, dy=draw(st.sampled_from([0.3, 0.6])), nc=draw(st.sampled_from([False, False, True]))) for _ in range(draw(st.sampled_from([2, 1])))]
    if len(sources) == 2:
        # the second source differs from the first in one thing only, and has the same target
        v = draw(st.sampled_from([None, 'ni', 'nj', 'first', 'last', 'first', 'last', 'type']))
        sources[1]['variant'] = v
        if v:
            a = sources[0]
            b = sources[1] = dict(a, name=sources[1]['name'], seed=sources[1]['seed'], variant=v)
            same = draw(st.booleans())      # as many values (numberOfValues) as the first
            if v == 'ni':
                b.update(ni=2 * a['ni'] - 1, dlon=0.5)
            elif v == 'nj':
                b.update(nj=a['nj'] + 1)
            elif v == 'first':
                d = draw(st.sampled_from([0.5, 0.01, 0.01]))
                b.update(lon0=a['lon0'] - d * (a['ni'] - 1), dlon=1.0 + d)
            elif v == 'last':
                b.update(dlon=1.0 + draw(st.sampled_from([0.5, 0.01, 0.01])))
            else:
                b.update(type='rotated_ll', splat=-84.0, splon=3.0)
            if same:
                b['masked'] = b['ni'] * b['nj'] - a['ni'] * a['nj'] + a['masked']
    if len(targets) == 2:
        # the second target differs from the first in the coordinates of one side only
        v = draw(st.sampled_from([None, 'north', 'south', 'west', 'east']))
        targets[1]['variant'] = v
        if v:
            targets[1] = dict(targets[0], variant=v, far=draw(st.booleans()))
    modes = draw(st.lists(st.sampled_from(MODES), min_size=1, max_size=2, unique=True))
    keys = [(s, t, m) for s in range(len(sources)) for t in range(len(targets)) for m in range(len(modes))]
    one, two = keys[draw(st.integers(0, len(keys) - 1))], keys[draw(st.integers(0, len(keys) - 1))]
    if sources[-1].get('variant') and draw(st.sampled_from([True, True, False])):
        one = (1, 0, 0)
    if targets[-1].get('variant') and draw(st.sampled_from([True, True, False])):
        two = (0, 1, 0)
    keys = [keys[0], one, two]
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        k = list(keys[draw(st.sampled_from([0, 1, 2, 1, 0]))])
        op = draw(st.sampled_from(['run', 'run', 'run', 'run', 'run', 'delete', 'unregister', 'gunzip', 'entry without gz', 'copy', 'move', 'move', 'forget registry']))
        d = draw(st.sampled_from(['default', 'default', 'n1', 'n2']))
        before = [o for o in ops if o['op'] == 'run']
        if before and draw(st.sampled_from([False, True, True])):
            # something seen before
            o = draw(st.sampled_from(before))
            k, d = draw(st.sampled_from([list(o['k']), list(o['k']), k])), o['d']
        if op in ('delete', 'gunzip') and draw(st.integers(0, 2)) == 0:
            d = 'global'
        o = dict(op=op, k=k, d=d)
        if op == 'run':
            o.update(create=draw(st.sampled_from([True, True, False])), by_json=draw(st.booleans()), fmt=draw(st.sampled_from(['pcraster', 'netcdf'])), twin=draw(st.booleans()))
        elif op in ('copy', 'move'):
            o['to'] = draw(st.sampled_from(DIRS))
        ops.append(o)
    if not ops[0].get('create') and draw(st.sampled_from([True, True, False])):
        ops[0] = dict(op='run', k=ops[0]['k'], d='n1' if ops[0]['d'] == 'n1' else 'default', create=True, by_json=False, fmt=draw(st.sampled_from(['pcraster', 'netcdf'])), twin=False)
    return dict(sources=sources, targets=targets, modes=modes, ops=ops, glob=draw(st.sampled_from([None, None, 'A', 'B'])))


def snapshot(folder):
    out = {}
    for f in sorted(os.listdir(folder)):
        p = os.path.join(folder, f)
        with open(p, 'rb') as fh:
            out[f] = (fh.read(), os.stat(p).st_mtime_ns)
    return out


def registry(w):
    p = os.path.join(w.conf, 'intertables.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {k: v for k, v in json.load(f).items() if isinstance(v, dict)}


def check(case, rec):
    c10.quick_progress()
    with world.World() as w:
        dirs = {'default': w.tables, 'n1': w.p('n1'), 'n2': w.p('n2')}
        if case['glob']:
            dirs['global'] = w.p('global tables')
            os.makedirs(w.p('configuration', 'global'))
            with open(w.p('configuration', 'global', 'global_conf.json'), 'w') as f:
                json.dump({'intertables': dirs['global'], **({'geopotentials': w.p('nowhere')} if case['glob'] == 'B' else {})}, f)
        for d in dirs:
            if d != 'default':
                os.makedirs(dirs[d])
        files = []      # [(grib, twin on the same grid)]
        for i, s in enumerate(case['sources']):
            rng = np.random.default_rng(s['seed'])
            n = s['ni'] * s['nj']
            pair = []
            for kind in ('a', 'b'):
                os.makedirs(w.p(f'src{i}{kind}'))
                msgs = []
                for step in s['steps']:
                    m = np.zeros(n, bool)
                    m[rng.permutation(n)[:s['masked']]] = True
                    msgs.append(dict(grid=dict(type=s.get('type', 'regular_ll'), ni=s['ni'], nj=s['nj'], lat0=s['lat0'], lon0=s['lon0'], dlat=1.0, dlon=s.get('dlon', 1.0), **{k: s[k] for k in ('splat', 'splon') if k in s}), values=rng.uniform(0, 300, n), missing=m if s['masked'] else None, end=step))
                pair.append(world.write_grib(w.p(f'src{i}{kind}', s['name']), msgs))
            files.append(pair)

        def target(t, s):
            """Maps of target t over source s (targets do not share their identifier)."""
            T = case['targets'][t]
            g = 0 if T.get('variant') else t
            S = case['sources'][s]
            la = S['lat0'] - 0.7 - T['dy'] * np.arange(T['rows'])
            lo = S['lon0'] + 0.4 + g + 0.8 * np.arange(T['cols'])
            v = T.get('variant')
            if v in ('north', 'south'):
                la[0 if v == 'north' else -1] += (1 if v == 'north' else -1) * (1.1 if T['far'] else 0.03)
            elif v:
                lo[0 if v == 'west' else -1] += (-1 if v == 'west' else 1) * (0.8 if T['far'] else 0.03)
            lo, la = np.meshgrid(lo, la)
            return w.target(la, lo, netcdf=T['nc'], geo=(100.0 * g + 10.0 * s, 1.0, 0.0, 10.0, 0.0, -1.0), tag=f'_{t}_{s}')

        maps, commands = {}, {}

        def command(k, fmt, folder=None):
            s, t, m = k
            if case['sources'][s].get('variant'):
                s = 0       # same target
            key = (s, t, m, fmt, folder)
            if key not in commands:
                if (t, s) not in maps:
                    maps[(t, s)] = target(t, s)
                commands[key] = w.command(f'c{len(commands)}.json', maps[(t, s)], case['modes'][m], outmaps={'@namePrefix': 'o', '@format': fmt}, interpolation={'@intertableDir': folder} if folder else None)
            return commands[key]

        count = [0]

        def run(k, fmt, twin, folder, create, by_json=False):
            count[0] += 1
            out = w.p(f'out{count[0]}')
            os.makedirs(out)
            argv = ['-c', command(k, fmt, folder if by_json else None), '-i', files[k[0]][twin], '-o', out]
            if folder and not by_json:
                argv += ['-N', folder]
            if create:
                argv.append('-B')
            r = w.run(*argv)
            return r, w.maps(fmt, out=out), os.listdir(out)

        reference = {}

        def ref(k, fmt, twin):
            """What a run making its own table gives."""
            key = (k, fmt, twin)
            if key not in reference:
                conf = os.path.join(w.conf, 'intertables.json')
                aside = None
                if os.path.exists(conf):
                    aside = open(conf, 'rb').read()
                    os.remove(conf)
                folder = w.p(f'ref{len(reference)}')
                os.makedirs(folder)
                r, m, _ = run(k, fmt, twin, folder, True)
                expect(r.exc is None and r.status == 0 and m.shape[0] == len(case['sources'][k[0]]['steps']), lambda: f'creating a table in a new folder failed: {r}')
                os.remove(conf)
                if aside is not None:
                    with open(conf, 'wb') as f:
                        f.write(aside)
                reference[key] = m
            return reference[key]

        entries = {}        # key -> (id, file name) of the registry
        counts = {'used from the global folder': 0}
        counts.update(used=0, created=0, refused=0)

        def found(k, *folders):
            if k not in entries:
                return None
            f = entries[k][1]
            for d in folders:
                for x in (f, f + '.gz'):
                    if d in dirs and os.path.exists(os.path.join(dirs[d], x)):
                        return x
            return None

        for step, o in enumerate(case['ops']):
            k, d = tuple(o['k']), o['d'] if o['d'] in dirs else 'default'
            what = f'operation {step} {o}'
            if o['op'] == 'run':
                twin = int(o['twin'] and not case['sources'][k[0]]['masked'])
                want = ref(k, o['fmt'], twin)
                before = {x: snapshot(p) for x, p in dirs.items()}
                reg = registry(w)
                have = found(k, d, 'global')
                r, m, out = run(k, o['fmt'], twin, dirs[d] if d != 'default' else None, o['create'], o['by_json'])
                after = {x: snapshot(p) for x, p in dirs.items()}
                expect(r.exc is None, lambda: f'{what}: {r}')
                new = {x: [f for f in after[x] if f not in before[x]] for x in dirs}
                for x in dirs:
                    for f in before[x]:
                        expect(f in after[x] and after[x][f][0] == before[x][f][0], lambda: f'{what}: the existing file {f} in {x} was changed or deleted')
                        expect(after[x][f][1] == before[x][f][1], lambda: f'{what}: the existing file {f} in {x} was written again')
                if have or o['create']:
                    expect(r.status == 0, lambda: f'{what}: the run failed: {r}; table on disk: {have}')
                    expect(m.shape == want.shape and np.isclose(m, want, rtol=3e-7 if o['fmt'] == 'pcraster' else 1e-9, atol=1e-12, equal_nan=True).all(),
                           lambda: f'{what}: map {m.tolist()} with {"the stored table " + have if have else "a new table"}, a run making its own table gives {want.tolist()}')
                if have:
                    counts['used'] += 1
                    counts['used from the global folder'] += not found(k, d)
                    expect(not any(new.values()), lambda: f'{what}: new files {new} although the table {have} exists')
                    expect(registry(w) == reg, lambda: f'{what}: the registry changed from {reg} to {registry(w)}')
                elif o['create']:
                    counts['created'] += 1
                    expect({x: len(v) for x, v in new.items()} == {x: int(x == d) for x in dirs}, lambda: f'{what}: new files {new}, expected one in {d}')
                    now = registry(w)
                    changed = [i for i in now if now[i] != reg.get(i)]
                    gone = [i for i in reg if i not in now]
                    expect(not gone, lambda: f'{what}: registry entries lost {gone}')
                    if k in entries:
                        mine = entries[k][0]
                        expect(mine in now and set(changed) <= {mine}, lambda: f'{what}: registry entries changed {changed}, not only {mine}')
                    else:
                        expect(len(changed) == 1 and changed[0] not in reg, lambda: f'{what}: registry entries changed {changed}, expected one new')
                        mine = changed[0]
                    f = now[mine]['filename']
                    expect(new[d][0] in (f, f + '.gz'), lambda: f'{what}: the registry has {f}, the new file is {new[d][0]}')
                    entries[k] = (mine, f)
                else:
                    counts['refused'] += 1
                    expect(r.status == 1 and any(l == 'ERROR' for l, _ in r.log), lambda: f'{what}: no table and no creation requested: {r}')
                    expect(not out, lambda: f'{what}: maps {out} written without table')
                    expect(not any(new.values()), lambda: f'{what}: files {new} made although creation was not requested')
                    expect(registry(w) == reg, lambda: f'{what}: the registry changed from {reg} to {registry(w)}')
                continue
            # changes made by the user between runs
            conf = os.path.join(w.conf, 'intertables.json')
            f = found(k, d)
            if o['op'] == 'forget registry':
                if os.path.exists(conf):
                    os.remove(conf)
                entries.clear()
            elif k not in entries:
                continue
            elif o['op'] == 'unregister':
                j = json.load(open(conf))
                del j[entries.pop(k)[0]]
                json.dump(j, open(conf, 'w'))
            elif f is None:
                continue
            elif o['op'] == 'delete':
                os.remove(os.path.join(dirs[d], f))
            elif o['op'] in ('copy', 'move'):
                dst = os.path.join(dirs[o['to'] if o['to'] in dirs else 'default'], f)
                if not os.path.exists(dst):
                    (shutil.copyfile if o['op'] == 'copy' else os.rename)(os.path.join(dirs[d], f), dst)
            elif f.endswith('.gz'):
                name = f[:-3]
                if os.path.exists(os.path.join(dirs[d], name)):
                    continue
                if o['op'] == 'gunzip':
                    with gzip.open(os.path.join(dirs[d], f)) as z:
                        data = z.read()
                    with open(os.path.join(dirs[d], name), 'wb') as p:
                        p.write(data)
                    os.remove(os.path.join(dirs[d], f))
                j = json.load(open(conf))
                j[entries[k][0]]['filename'] = name
                json.dump(j, open(conf, 'w'))
                entries[k] = (entries[k][0], name)
    for what, xs in (('source', case['sources']), ('target', case['targets'])):
        if len(xs) == 2 and len({k[0 if what == 'source' else 1] for k in entries}) == 2:
            rec.label(f'two {what}s: {xs[1].get("variant") or "any"}')
    rec.label(*[x for x, c in counts.items() if c], *[o['op'] for o in case['ops']], *case['modes'])
    rec.hit(counts['used'] >= 1 and counts['created'] >= 1)


# ------------------------------------------------------------------ known findings: different tables with the same identifier
def _collision(first, second):
    """True when the second run, after the first, does not give what it gives alone. Each: dict(grid=, target=, mode=, interpolation=)."""
    c10.quick_progress()
    res = []
    for runs in ((second,), (first, second)):
        with world.World() as w:
            for i, r in enumerate(runs):
                grid = dict(type='regular_ll', ni=5, nj=5, lat0=50.0, lon0=5.0, dlat=1.0, dlon=1.0)
                grid.update(r.get('grid', {}))
                g = world.write_grib(w.p(f'in{i}.grb'), [dict(grid=grid, values=[float((7 * j) % 25) for j in range(25)], end=6)])
                lats, lons = r.get('target', ([47.7, 46.7], [6.3, 7.3]))
                lo, la = np.meshgrid(lons, lats)
                maps = w.target(la, lo, geo=(0.0, 1.0, 0.0, 10.0, 0.0, -1.0), tag=f'_{i}')
                extra = dict(r.get('interpolation', {}))
                if 'cdd' in r:
                    extra['@cdd_map'] = world.write_pcr(w.p(f'cdd{i}.map'), np.full(la.shape, float(r['cdd'])))
                c = w.command(f'c{i}.json', maps, r.get('mode', 'grib_nearest'), outmaps={'@namePrefix': 'o'}, interpolation=extra)
                os.makedirs(w.p(f'out{i}'))
                x = w.run('-c', c, '-i', g, '-o', w.p(f'out{i}'), '-B')
                res_i = w.maps(out=w.p(f'out{i}')) if x.status == 0 else None
            res.append(res_i)
    a, b = res
    if a is None:
        return False
    return b is None or a.shape != b.shape or not np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True)


ROTATED = dict(type='rotated_ll', lat0=0.0, splat=-87.0, splon=3.0)
KNOWN = [
    Known('C11-source-latitudes', 'interpolation table identifiers ignore the latitudes of the source grid: the table of a 5x5 grid from latitude 50 is used for one from latitude 49 with the same longitudes',
          lambda: _collision(dict(), dict(grid=dict(lat0=49.0)))),
    Known('C11-target-size', 'interpolation table identifiers ignore the size of the target: the table of a 2x2 target is used for a 3x2 one with the same georeference and extreme coordinates',
          lambda: _collision(dict(target=([47.7, 46.7], [6.3, 7.3])), dict(target=([47.7, 47.2, 46.7], [6.3, 7.3])))),
    Known('C11-target-cells', 'interpolation table identifiers ignore the inner cells of the target: the table of latitudes 48.7 47.9 46.7 is used for 48.7 47.1 46.7 with the same georeference',
          lambda: _collision(dict(target=([48.7, 47.9, 46.7], [6.3, 7.3])), dict(target=([48.7, 47.1, 46.7], [6.3, 7.3])))),
    Known('C11-cdd-settings', 'interpolation table identifiers ignore the cdd map, mode and options: the table made with the cdd map of 100 is used with the one of 500',
          lambda: _collision(dict(mode='cdd', cdd=100, interpolation={'@cdd_mode': 'Hofstra'}), dict(mode='cdd', cdd=500, interpolation={'@cdd_mode': 'Hofstra'}))),
    Known('C11-rotated-target', 'interpolation table identifiers ignore @rotated_target: the table made with it is used without it',
          lambda: _collision(dict(mode='nearest', grid=ROTATED, target=([-1.7, -2.7], [6.3, 7.3]), interpolation={'@rotated_target': True}), dict(mode='nearest', grid=ROTATED, target=([-1.7, -2.7], [6.3, 7.3])))),
]

CHECK = Check(
    'C11', [Sub('histories', case_, check, 1300, 40000,
                rule='histories of runs (with and without creation, in the default folder and two others given with -N or @intertableDir, and a global one, all modes, both formats) and of changes made by the user to tables and registry (deleted, '
                     'unregistered, unpacked, copied, moved, registry lost); non-trivial: a table was created and a stored one used')],
    rule='the map of each run against a run making its own table, folders and registry compared before and after each run; see the sub-check',
    assumptions=['tables with different identifiers only (see the known findings)'], known=KNOWN, quick_s=70)
