"""C20 user configuration over the global one."""
import json
import os
import string

import numpy as np
from hypothesis import strategies as st

from .. import world
from ..engine import Check, Known, Sub, Violation, expect, fail

FILES = ('parameters', 'geopotentials', 'intertables', 'ftp')
CREATED = ('description', 'xyz', 'host', 'folder', 'user', 'pwd')       # what is in the files made for the user
TEXT = st.text(string.ascii_letters + string.digits + ' _-$.:/{}#=\'"\\éü€漢', max_size=12)
KEY = st.sampled_from(['2t', 'tp', 'x', 'é', 'a$b$3', '10u', 'with space', '5$7$3$3$9$regular_ll'])


def conversion(draw):
    return {'@id': draw(st.sampled_from(['k2c', 'c1', 'é', 'c', 'c12', 'k2', 'C1'])), '@unit': draw(TEXT), '@function': draw(st.sampled_from(['x=x', 'x=x-273.15', 'x=x*2'])), **({'@cutOffNegative': draw(st.sampled_from([True, 'true', 'False']))} if draw(st.booleans()) else {})}


def optional(draw, d, names):
    """Some of the details can be left out, and others given."""
    if draw(st.integers(0, 2)) == 0:
        for k in draw(st.lists(st.sampled_from(names), max_size=3, unique=True)):
            d.pop(k)
    if draw(st.integers(0, 3)) == 0:
        d[draw(st.sampled_from(['@note', 'comment', 'é']))] = draw(TEXT)
    return d


@st.composite
def entry(draw, kind, key):
    if kind == 'parameters':
        c = [conversion(draw) for _ in range(draw(st.integers(1, 2)))]
        d = {'@shortName': key, '@description': draw(TEXT), '@unit': draw(TEXT), 'Conversion': c if len(c) > 1 or draw(st.booleans()) else c[0]}
        return optional(draw, d, ('@description', '@unit', 'Conversion', '@shortName'))
    if kind == 'geopotentials':
        return draw(st.sampled_from(['a.grb', 'b.grb', 'é.grb', 'sub.x.grb']))
    if kind == 'intertables':
        return optional(draw, {'filename': draw(st.sampled_from(['t1.npy', 't2.npy.gz', 'é.npy'])), 'method': draw(st.sampled_from(['nearest', 'grib_nearest'])), 'source_shape': [draw(st.integers(1, 99))], 'target_shape': [draw(st.integers(1, 9)), 3]}, ('method', 'source_shape', 'target_shape'))
    return draw(TEXT)


@st.composite
def content(draw, kind):
    if kind == 'ftp':
        return {k: draw(TEXT) for k in draw(st.lists(st.sampled_from(['host', 'folder', 'user', 'pwd']), max_size=4, unique=True))}
    d = {k: draw(entry(kind, k)) for k in draw(st.lists(KEY, max_size=5, unique=True))}
    if draw(st.integers(0, 3)) == 1:
        # as in the files distributed
        d['description'] = draw(TEXT)
    return d


BROKEN = ['cut', 'empty', 'null', 'list', 'string', 'number', 'garbage', 'not text', 'no comma', 'single quotes', 'trailing', 'two']
OPS = ['load', 'load', 'edit', 'edit', 'global', 'broken', 'dump', 'table', 'geopotential', 'stale', 'no global', 'removed']


@st.composite
def history_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(FILES))
        ops.append(dict(op=draw(st.sampled_from(OPS)), file=kind, content=draw(content(kind)), keep=draw(st.booleans()), how=draw(st.sampled_from(BROKEN)), cut=draw(st.integers(1, 60)), k=draw(st.integers(0, 9)), whole=draw(st.booleans())))
    return dict(globals_={k: draw(st.one_of(st.none(), content(k), content(k))) for k in FILES}, user={k: draw(st.one_of(st.none(), content(k), content(k))) for k in FILES}, ops=ops)


def broken(how, d, cut):
    t = json.dumps(d, indent=2)
    if how == 'cut':
        return t[:-1 - cut % max(1, len(t) - 1)].encode()
    return {'empty': b'', 'null': b'null', 'list': b'[1, 2]', 'string': b'"abc"', 'number': b'12', 'garbage': b'@@@\n', 'not text': b'{"a": "\xff\xfe\xfa"}', 'no comma': b'{"a": 1 "b": 2}', 'single quotes': b"{'a': 1}",
            'trailing': t.encode() + b'}', 'two': t.encode() + b'\n' + t.encode()}[how]


GRID = dict(type='regular_ll', ni=3, nj=3, lat0=50.0, lon0=5.0, dlat=1.0, dlon=1.0)


def history_check(case, rec):
    from pyg2p.exceptions import JSON_ERROR, ApplicationException
    from pyg2p.main import config as cf
    CLASSES = dict(parameters=cf.ParametersConfiguration, geopotentials=cf.GeopotentialsConfiguration, intertables=cf.IntertablesConfiguration, ftp=cf.FtpConfig)
    done = set()
    overriding = False
    with world.World() as w:
        gdir = w.p('configuration', 'global')
        os.makedirs(gdir)
        path = lambda k: os.path.join(w.conf, k + '.json')
        G, U = {}, {}
        os.unlink(path('parameters'))
        maps = w.target(np.array([[49.5], [48.25]]), np.array([[5.5], [5.5]]))

        def put(p, d, as_text):
            with open(p, 'w', encoding='utf-8') as f:
                json.dump(d, f, ensure_ascii=bool(as_text), indent=2 if as_text else None)

        for k in FILES:
            if case['globals_'][k] is not None:
                G[k] = dict(case['globals_'][k])
                put(os.path.join(gdir, k + '.json'), G[k], True)
            if case['user'][k] is not None:
                U[k] = dict(case['user'][k])
                put(path(k), U[k], len(U[k]) % 2)

        def load(k, whole):
            if whole:
                c = cf.Configuration()
                return getattr(c, k)
            return CLASSES[k](cf.UserConfiguration())

        def verify(k, whole, after):
            try:
                c = load(k, whole)
            except ApplicationException as e:
                fail(f'{after}: loading {k} failed: {e}')
            want = {**G.get(k, {}), **U.get(k, {})}
            if k not in U:
                # it has been made
                expect(os.path.isfile(path(k)), f'{after}: no {k}.json was made for the user')
                with open(path(k), encoding='utf-8') as f:
                    made = json.load(f)
                expect(isinstance(made, dict) and set(made) <= set(CREATED), lambda: f'{after}: {k}.json was made with {made}')
                U[k] = made
                want = {**G.get(k, {}), **made}
            for key, v in want.items():
                if key in CREATED and k != 'ftp':
                    continue
                if k == 'parameters':
                    if not v:
                        continue
                    got = c.get(key)
                    for conv in () if 'Conversion' not in v else v['Conversion'] if isinstance(v['Conversion'], list) else [v['Conversion']]:
                        first = next(x for x in (v['Conversion'] if isinstance(v['Conversion'], list) else [v['Conversion']]) if x['@id'] == conv['@id'])
                        expect(c.get_conversion(got, conv['@id']) == first, lambda: f'{after}: conversion {conv["@id"]} of {key} is {c.get_conversion(got, conv["@id"])}')
                    have = [x['@id'] for x in (v.get('Conversion') if isinstance(v.get('Conversion'), list) else [v['Conversion']] if 'Conversion' in v else [])]
                    for id_ in [x for x in ('k2c', 'c1', 'c', 'k2', 'c12', '', 'K2C', 'nothing') if x not in have] if have else ():
                        try:
                            x = c.get_conversion(got, id_)
                        except (ApplicationException if '@shortName' in v else (ApplicationException, KeyError)):
                            continue
                        fail(f'{after}: conversion {id_!r} of {key}, which has {have}, is {x}')
                elif k == 'ftp':
                    host, user, pwd = c.access
                    got = dict(host=host, user=user, pwd=pwd, folder=c.folder)[key] if key in ('host', 'user', 'pwd', 'folder') else v
                else:
                    got = c.vars.get(key)
                expect(got == v, lambda: f'{after}: {k} {key!r} is {got!r}, expected {v!r} (user file {U.get(k, {}).get(key)!r}, global {G.get(k, {}).get(key)!r})')
            if k == 'parameters':
                for key in ('nothing', 'desc'):
                    try:
                        got = c.get(key)
                    except ApplicationException:
                        continue
                    fail(f'{after}: unknown parameter {key} is {got}')
            elif k != 'ftp':
                extra = set(c.vars) - set(want) - set(CREATED)
                expect(not extra, lambda: f'{after}: {k} has entries {extra} of no file')
            with open(path(k), encoding='utf-8') as f:
                have = json.load(f)
            for key, v in U[k].items():
                expect(key in have and have[key] == v, lambda: f'{after}: the entry {key!r} of the user in {k}.json is {have.get(key)!r}, was {v!r}')
            return c

        verify_all = lambda after: [verify(k, False, after) for k in FILES]
        verify_all('at the start')
        for i, o in enumerate(case['ops']):
            k, op = o['file'], o['op']
            what = f'{op} {k}'
            if op == 'edit':
                U[k] = {**(U[k] if o['keep'] else {}), **o['content']}
                put(path(k), U[k], o['whole'])
            elif op == 'global':
                G[k] = {**(G.get(k, {}) if o['keep'] else {}), **o['content']}
                put(os.path.join(gdir, k + '.json'), G[k], o['whole'])
            elif op == 'no global':
                if k in G:
                    os.unlink(os.path.join(gdir, k + '.json'))
                    del G[k]
            elif op == 'removed':
                os.unlink(path(k))
                del U[k]
            elif op == 'dump':
                load(k, o['whole']).dump()
            elif op == 'broken':
                # of the user, or global
                at = path(k) if o['k'] < 7 else os.path.join(gdir, k + '.json')
                bad = broken(o['how'], U[k] or {'a': 1}, o['cut'])
                keep = open(at, 'rb').read() if os.path.exists(at) else None
                try:
                    json.loads(bad.decode('utf-8'))
                    if isinstance(json.loads(bad.decode('utf-8')), dict):
                        continue
                except ValueError:
                    pass
                with open(at, 'wb') as f:
                    f.write(bad)
                try:
                    c = load(k, o['whole'])
                except ApplicationException as e:
                    expect(e.code == JSON_ERROR, lambda: f'{what}: another error: {e}')
                except Violation:
                    raise
                except Exception as e:
                    fail(f'{what} ({bad[:40]!r}): {type(e).__name__} {e} in place of a configuration error')
                else:
                    fail(f'{what}: {at} has {bad[:40]!r} but there is no error, the entries are {list(c.vars)}')
                g = world.write_grib(w.p('in.grb'), [dict(grid=GRID, values=np.arange(9.0), shortName='2t', end=6)])
                r = w.run('-c', w.command('c.json', maps, 'nearest'), '-i', g, '-o', w.out, '-B')
                expect(r.exc is None and r.status == 1, lambda: f'{what}: a run gave {r}')
                with open(at, 'rb') as f:
                    expect(f.read() == bad, f'{what}: the file was rewritten')
                if keep is None:
                    os.unlink(at)
                else:
                    with open(at, 'wb') as f:
                        f.write(keep)
            elif op == 'table':
                # a run adds its interpolation table to the file
                U['parameters'] = {**U['parameters'], '2t': {'@shortName': '2t', '@description': 'd', '@unit': 'K', 'Conversion': {'@id': 'c', '@unit': 'K', '@function': 'x=x'}}}
                put(path('parameters'), U['parameters'], True)
                grid = dict(GRID, ni=3 + i, lon0=5.0 - i)
                g = world.write_grib(w.p('in.grb'), [dict(grid=grid, values=np.arange(float(3 * grid['ni'])), shortName='2t', end=6)])
                before = set(os.listdir(w.tables))
                r = w.run('-c', w.command('c.json', maps, ('nearest', 'invdist', 'grib_nearest')[o['k'] % 3]), '-i', g, '-o', w.out, '-B')
                expect(r.exc is None and r.status == 0, lambda: f'{what}: {r}')
                new = set(os.listdir(w.tables)) - before
                with open(path('intertables'), encoding='utf-8') as f:
                    have = json.load(f)
                added = {a: b for a, b in have.items() if a not in U['intertables']}
                if len(new) == 1:
                    expect(new <= {b['filename'] for b in have.values() if isinstance(b, dict)}, lambda: f'{what}: the table {new} is not in intertables.json: {added}')
                U['intertables'].update(added)
            elif op == 'geopotential':
                grid = dict(GRID, ni=4 + i, lon0=5.0 - i)
                g = world.write_grib(w.p(f'geo{i}.grb'), [dict(grid=grid, values=np.arange(float(3 * grid['ni'])), shortName='z', end=0)])
                r = w.run('-g', g)
                expect(r.exc is None and r.status == 0, lambda: f'{what}: {r}')
                with open(path('geopotentials'), encoding='utf-8') as f:
                    have = json.load(f)
                added = {a: b for a, b in have.items() if a not in U['geopotentials']}
                expect(len(added) == 1, lambda: f'{what}: geopotentials.json has got {added}')
                U['geopotentials'].update(added)
            elif op == 'stale' and o['k'] % 2:
                # the same with tables: a context made before another run
                from pyg2p.main.api import ApiContext, Pyg2pApi
                U['parameters'] = {**U['parameters'], '2t': {'@shortName': '2t', '@description': 'd', '@unit': 'K', 'Conversion': {'@id': 'c', '@unit': 'K', '@function': 'x=x'}}}
                put(path('parameters'), U['parameters'], True)
                gs = []
                for j in range(2):
                    grid = dict(GRID, nj=4 + j, ni=4 + i, lon0=25.0 - i)
                    gs.append(world.write_grib(w.p(f'in{j}.grb'), [dict(grid=grid, values=np.arange(float(grid['nj'] * grid['ni'])), shortName='2t', end=6)]))
                with world.collected_log():
                    api = Pyg2pApi(ApiContext({'inputFile': gs[0], 'createIntertable': True, 'interpolationParallel': False, 'Parameter': {'shortName': '2t'}, 'OutMaps': {'cloneMap': maps['clone'], 'unitTime': 24, 'Interpolation': {
                        'latMap': maps['lat'], 'lonMap': maps['lon'], 'mode': 'nearest'}}}))
                    before = set(os.listdir(w.tables))
                    r = w.run('-c', w.command('c.json', maps, 'nearest'), '-i', gs[1], '-o', w.out, '-B')
                    expect(r.exc is None and r.status == 0, lambda: f'{what}: {r}')
                    api.execute()
                new = set(os.listdir(w.tables)) - before
                with open(path('intertables'), encoding='utf-8') as f:
                    have = json.load(f)
                expect(new <= {b['filename'] for b in have.values() if isinstance(b, dict)}, lambda: f'{what}: of the tables {new} intertables.json has {have}')
                U['intertables'].update({a: b for a, b in have.items() if a not in U['intertables']})
            elif op == 'stale':
                # two at the same time: both additions are there afterwards
                c = cf.GeopotentialsConfiguration(cf.UserConfiguration())
                for j, who in enumerate((cf.GeopotentialsConfiguration(cf.UserConfiguration()), c)):
                    grid = dict(GRID, nj=4 + j, ni=4 + i, lon0=15.0 - i)
                    who.add(world.write_grib(w.p(f'stale{i}{j}.grb'), [dict(grid=grid, values=np.arange(float(grid['nj'] * grid['ni'])), shortName='z', end=0)]))
                with open(path('geopotentials'), encoding='utf-8') as f:
                    have = json.load(f)
                added = {a: b for a, b in have.items() if a not in U['geopotentials']}
                expect(len(added) == 2, lambda: f'{what}: geopotentials.json has got {added}')
                U['geopotentials'].update(added)
            else:
                verify(k, o['whole'], what)
                verify(k, not o['whole'], what)
            done.add(op)
            verify_all(what)
            overriding |= any(set(G.get(x, {})) & set(U.get(x, {})) for x in FILES)
    rec.label(*done, *(['overriding'] if overriding else []), *(['both sides'] if any(set(G.get(x, {})) - set(U.get(x, {})) for x in FILES) else []))
    rec.hit(overriding and bool(done - {'load'}))


# ------------------------------------------------------------------ .conf files
NAME = st.text(string.ascii_letters + string.digits + '_', min_size=1, max_size=8).filter(lambda s: not s[0].isdigit())
# not framed by blanks and quotes, which are taken away
VALUE = st.text(string.ascii_letters + string.digits + ' _-$.:/{}#=\'"\\é漢,;@%&()', max_size=14).filter(lambda s: s.strip('" \t') == s)


@st.composite
def conf_case(draw):
    names = draw(st.lists(NAME, min_size=1, max_size=8, unique=True))
    lines = []
    for n in names:
        lines.append(['var', n, draw(VALUE), draw(st.sampled_from(['=', '=', '=', ' = ', '= ', ' =', '=\t'])), draw(st.sampled_from(['', '', '', '  ', '\t'])), draw(st.sampled_from(['', '', '', '"', ' '])), draw(st.integers(0, 2))])
    for _ in range(draw(st.integers(0, 6))):
        kind = draw(st.sampled_from(['blank', 'comment', 'comment', 'commented variable', 'other file']))
        lines.append([kind, draw(NAME), draw(VALUE), '=', draw(st.sampled_from(['', ' ', '\t'])), '', draw(st.integers(0, 2))])
    return dict(lines=draw(st.permutations(lines)), eol=draw(st.sampled_from(['\n', '\n', '\r\n'])), last=draw(st.booleans()), names=draw(st.sampled_from([['a.conf', 'b.conf', 'c.conf'], ['x y.conf', '.hidden.conf', 'é.conf'], ['Z.conf', 'paths.conf', '1.2.conf']])),
                bad=draw(st.sampled_from([None, None, None, 'no sign', 'not text'])), folder=draw(st.booleans()))


def conf_check(case, rec):
    from pyg2p.exceptions import ApplicationException
    from pyg2p.main.config import Configuration, UserConfiguration
    with world.World() as w:
        os.unlink(os.path.join(w.conf, 'paths.conf'))
        files = [[], [], []]
        want, absent = {}, set()
        for kind, n, v, sep, lead, quote, i in case['lines']:
            if kind == 'var':
                files[i].append(f'{lead}{n}{sep}{quote}{v}{quote if quote == chr(34) else ""}')
                want[n] = v
            elif kind == 'blank':
                files[i].append(lead)
            elif kind == 'comment':
                files[i].append(f'{lead}# {v}')
            elif kind == 'commented variable':
                files[i].append(f'{lead}#{n}={v}')
                absent.add(n)
            else:
                with open(os.path.join(w.conf, f'{n}.conf.{i}'), 'w') as f:
                    f.write(f'{n}={v}\n')
                absent.add(n)
        for name, lines in zip(case['names'], files):
            with open(os.path.join(w.conf, name), 'w', encoding='utf-8', newline='') as f:
                f.write(case['eol'].join(lines) + (case['eol'] if case['last'] else ''))
        if case['folder']:
            os.makedirs(os.path.join(w.conf, 'd.conf'))
        if case['bad']:
            with open(os.path.join(w.conf, 'bad.conf'), 'wb') as f:
                f.write(b'A_B_C=1\njust words\n' if case['bad'] == 'no sign' else b'A_B_C=\xff\xfe\xfd\n')
            try:
                c = UserConfiguration()
            except ApplicationException as e:
                expect('bad.conf' in str(e), lambda: f'the error does not name the file: {e}')
            except Exception as e:
                fail(f'malformed .conf ({case["bad"]}): {type(e).__name__} {e} in place of a configuration error')
            else:
                fail(f'malformed .conf ({case["bad"]}): no error, {c.vars}')
            r = w.run('-g', w.p('none.grb'))
            expect(r.exc is None and r.status == 1, lambda: f'malformed .conf: {r}')
            rec.label('malformed')
            rec.hit()
            return
        for c in (UserConfiguration(), Configuration().user):
            for n, v in want.items():
                expect(c.get(n) == v, lambda: f'variable {n} is {c.get(n)!r}, expected {v!r}')
                if '{' not in v:
                    expect(c.interpolate('{%s}/m' % n) == v + '/m', lambda: f'{{{n}}}/m becomes {c.interpolate("{%s}/m" % n)!r}')
                    expect(c.interpolate('a{%s}b{%s}' % (n, n)) == f'a{v}b{v}', lambda: f'a{{{n}}}b{{{n}}} becomes {c.interpolate("a{%s}b{%s}" % (n, n))!r}')
            for n in absent - set(want):
                expect(c.get(n) is None, lambda: f'{n} is defined as {c.get(n)!r}')
                try:
                    p = c.interpolate('{%s}/m' % n)
                except ApplicationException as e:
                    expect(n in str(e), lambda: f'the error does not name {n}: {e}')
                else:
                    fail(f'{{{n}}}/m became {p} but {n} is not defined')
    rec.label(*{l[0] for l in case['lines']}, f'{min(len(want), 4)} variables', *(['CRLF'] if case['eol'] != '\n' else []), *(['value with ='] if any('=' in v for v in want.values()) else []), *(['value with #'] if any('#' in v for v in want.values()) else []))
    rec.hit(len(want) > 1 and any(v for v in want.values()))


# ------------------------------------------------------------------ known finding
def probe():
    from pyg2p.main.config import FtpConfig, UserConfiguration
    with world.World() as w:
        os.makedirs(w.p('configuration', 'global'))
        with open(w.p('configuration', 'global', 'ftp.json'), 'w') as f:
            json.dump({'host': 'h', 'user': 'u', 'pwd': 'p', 'folder': '/'}, f)
        return FtpConfig(UserConfiguration()).access[0] != 'h'


CHECK = Check(
    'C20', [Sub('histories', history_case, history_check, 1500, 50000,
                rule='generated global and user JSON files (parameters, geopotentials, intertables, ftp) and histories of loading, editing, removing, rewriting, runs which add tables and geopotentials, two instances and malformed files; '
                     'everything is loaded and compared after each; non-trivial: an entry in both files'),
            Sub('conf', conf_case, conf_check, 2500, 80000, rule='generated .conf files: values, comments, blanks, several files, line ends, malformed ones; non-trivial: two variables or more, or malformed')],
    rule='effective entries = global ones overridden by those of the user, and all entries of the user stay in the files',
    known=[Known('C20-ftp-template', 'the ftp.json made for a new user has empty entries which hide the global settings, so that -W has no host', probe)],
    assumptions=['variables are defined once', 'values are not framed by blanks and double quotes'], quick_s=70)
