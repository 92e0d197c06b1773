"""C26 runs and configuration commands ended at any point, or by a full disk."""
import os
import signal

from hypothesis import strategies as st

from .. import actors, world
from ..engine import Check, Sub, expect


@st.composite
def case_(draw):
    sc = draw(actors.scene())
    before = draw(st.lists(actors.action(sc, ('run', 'run', 'add')), max_size=2))
    victims = []
    for _ in range(draw(st.integers(1, 2))):
        a = draw(actors.action(sc, ('run', 'run', 'add', 'add', 'remove')))
        f = dict(kind=draw(st.sampled_from(['kill', 'kill', 'kill in', 'kill in', 'full'])), k=draw(st.one_of(st.integers(-2, 8), st.integers(-1, 26))), size=draw(st.sampled_from([0, 0, 1, 40, 100, 270, 285, 300, 500, 1000, 4000, 8000])))
        victims.append(dict(a=a, f=f, lost=draw(st.sampled_from([None, None, None, 'table', 'table', 'registry']))))
    return dict(scene=sc, before=before, victims=victims, used=draw(st.sampled_from([True, True, False])))


def entries(w, s):
    return {n: s.registry(n) for n in ('intertables', 'geopotentials', 'parameters', 'ftp')}


def check(case, rec):
    labels = set()
    hit = False
    with world.World() as w:
        s = actors.Scene(w, case['scene'])
        actions = case['before'] + [v['a'] for v in case['victims']]
        s.prepare(actions)
        done = []
        if case['used']:
            # the configuration has been made
            w.run('-g', w.p('none.grb'))
        for a in case['before']:
            s.again(a, f'first {a}', True)
            done.append(a)
        if not case['used'] and not done:
            labels.add('first use')
        for i, v in enumerate(case['victims']):
            a, f = v['a'], v['f']
            tables = sorted(x for x in os.listdir(w.tables) if os.path.isfile(os.path.join(w.tables, x)))
            if v['lost'] == 'table' and tables:
                # registered, but no longer there
                os.remove(os.path.join(w.tables, tables[0]))
            if v['lost'] == 'registry':
                for n in ('ftp.json',) + (() if done else ('intertables.json', 'geopotentials.json')):
                    if os.path.exists(os.path.join(w.conf, n)):
                        os.remove(os.path.join(w.conf, n))
            argv, out = s.argv(a)
            had = entries(w, s)
            used = {os.path.join(w.geos, x) for x in had['geopotentials'].values() if isinstance(x, str)}
            data = {p: b for p, b in {**world.snapshot(w.tables), **world.snapshot(w.geos)}.items() if b is not None and (p in used or p.startswith(w.tables))}
            what = f'{i + 1}: {a} {f} {v["lost"] or ""}'

            def go():
                seen = []

                def event(k, name, path):
                    if k != f['k']:
                        return
                    seen.append((name, os.path.basename(path)))
                    if f['kind'] == 'kill':
                        os.kill(os.getpid(), signal.SIGKILL)
                    actors.limit_files(f['size'], f['kind'] == 'kill in')

                if f['k'] < 0 and f['kind'] != 'kill':
                    # from the beginning
                    seen.append('all')
                    actors.limit_files(f['size'], f['kind'] == 'kill in')
                actors.watch((world.SCRATCH,), event)
                r = s.do(argv)
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                return r.status, repr(r.exc) if r.exc is not None else None, r.log, seen

            how, res = world.forked(go, 120)
            expect(how in ('ok', 'died'), lambda: f'{what}: {how} {res}')
            if how == 'died':
                labels.add(f['kind'])
                hit = True
            else:
                status, exc, log, seen = res
                expect(exc is None, lambda: f'{what}: ended in {exc}')
                expect(status in (0, 1), lambda: f'{what}: status {status}')
                expect(status == 0 or log, lambda: f'{what}: status 1 without an error')
                if seen and f['kind'] == 'full' and status == 1:
                    labels.add('full')
                    hit = True
                elif not (seen and f['kind'] == 'full') and a['op'] == 'run':
                    expect(status == 0, lambda: f'{what}: not interrupted, status {status} {log}')
                if status == 0 and a['op'] == 'run':
                    s.same(a, out, f'{what}, status 0')
            # what the user had
            for n, old in had.items():
                new = s.registry(n)
                for k, x in old.items():
                    if a['op'] == 'remove' and n == 'geopotentials' and k not in new:
                        expect(k == s.sc_id(a['s']), lambda: f'{what}: {k} is lost from {n}.json')
                        continue
                    expect(k in new and (new[k] == x or n == 'intertables'), lambda: f'{what}: {k}: {x} has become {new.get(k)} in {n}.json')
            now = {**world.snapshot(w.tables), **world.snapshot(w.geos)}
            for p, b in data.items():
                expect(now.get(p) == b, lambda: f'{what}: {p} was changed')
            # and what the user gets by repeating the command
            s.again(a, f'{what}, repeated', True)
            if a['op'] != 'remove':
                done.append(a)
            removed = [x['a']['s'] for x in case['victims'][:i + 1] if x['a']['op'] == 'remove']
            for d in done:
                if d['op'] == 'run':
                    s.again(d, f'{what}, then {d}', v['lost'] == 'table')
                elif d['s'] not in removed:
                    s.again(d, f'{what}, then {d}', True)
            labels.add(a['op'])
            labels.add(v['lost'] and f'{v["lost"]} lost before')
    rec.label(*(x for x in labels if x))
    rec.hit(hit)


CHECK = Check(
    'C26', [Sub('interruptions', case_, check, 1100, 30000,
                rule='runs which create tables, additions and removals of geopotentials, with the first use of the configuration, tables already there, same names, registered tables whose file is lost; killed before any change of '
                     'a file or after any number of bytes of it, or with no room from there on; non-trivial: the fault took place')],
    rule='registries and data files against what they were, and the maps of the repeated command against an undisturbed one',
    assumptions=['faults are placed at Python file operations, and at any size of any file also in native code', 'files of interrupted runs nobody refers to are not judged'], quick_s=60)
