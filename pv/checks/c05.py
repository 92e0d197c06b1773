"""C05 conversion and negative cut-off."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import aggr, gen, world
from ..aggcheck import GRID, target_on_grid
from ..engine import Check, Sub, expect, fail

CONST = st.sampled_from(['2', '0.5', '10', '1000', '273.15', '3', '0.001', '-1', '1e3', '-7.25'])


@st.composite
def expression(draw, depth=2):
    """A numexpr function of x which is defined everywhere on moderate values."""
    if depth == 0:
        return 'x'
    k = draw(st.integers(0, 8))
    e = draw(expression(depth=depth - 1))
    c = draw(CONST)
    return {0: f'{e}+{c}', 1: f'{e}-{c}', 2: f'({e})*{c}', 3: f'({e})/{c}', 4: f'abs({e})', 5: f'where({e}<{c},{e},{c})', 6: f'({e})**2', 7: f'where({e}=={c},{c}+1,{e})', 8: f'sqrt(abs({e}))+{c}'}[k]


def evaluate(func, x):
    return np.asarray(eval(func, {'__builtins__': {}}, dict(x=np.asarray(x, float), where=np.where, abs=np.abs, sqrt=np.sqrt)), float) * np.ones(np.shape(x))


@st.composite
def unit_case(draw):
    n = draw(st.integers(1, 5))
    return dict(func='x=' + draw(st.one_of(st.just('x'), expression(1), expression(2))), n=n, v=draw(gen.values(n, -500, 500, missing_code=True)), m=draw(gen.masks(n)),
                cut=draw(st.booleans()), mv=draw(st.sampled_from([9999.0, -1.0, 1e20, 0.0])), shape2=draw(st.booleans()))


def unit_check(case, rec):
    from pyg2p.main.manipulation.conversion import Converter
    v = np.array(case['v'])
    m = np.zeros(v.shape, bool) if case['m'] is None else np.array(case['m'], bool)
    x = v.copy() if case['m'] is None else np.ma.masked_where(m, v.copy())
    cv = Converter(func=case['func'], cut_off=case['cut'])
    cv.set_unit_to_convert('K')
    cv.set_missing_value(case['mv'])
    r = cv.convert(x)
    want = v if case['func'] == 'x=x' else evaluate(case['func'][2:], v)
    gv, gm = aggr.split(r)
    expect(np.array_equal(gm, m), lambda: f'missing {gm.tolist()} instead of {m.tolist()}')
    ok = ~m
    expect(np.allclose(gv[ok], want[ok], rtol=1e-12, atol=1e-12), lambda: f'{case["func"]} of {v[ok].tolist()} gives {gv[ok].tolist()}, expected {want[ok].tolist()}')
    expect(bool(cv.must_cut_off) == case['cut'], f'must_cut_off {cv.must_cut_off}')
    d = cv.cut_off_negative({'a': r.copy(), 'b': (r * 2)})
    for k, f in (('a', 1), ('b', 2)):
        cv_, cm = aggr.split(d[k])
        expect(np.array_equal(cm, m), lambda: f'missing after cut-off {cm.tolist()} instead of {m.tolist()}')
        expect(np.allclose(cv_[ok], np.maximum(want[ok] * f, 0), rtol=1e-12, atol=1e-12), lambda: f'cut-off of {(want[ok] * f).tolist()} gives {cv_[ok].tolist()}')
    rec.label('masked' if m.any() else 'unmasked', 'identity' if case['func'] == 'x=x' else 'function', 'negative values' if (want[ok] < 0).any() else 'no negative value')
    rec.hit(case['func'] != 'x=x' and ok.any())


@st.composite
def run_case_(draw):
    kind = draw(st.sampled_from([None, 'accumulation', 'average', 'instantaneous']))
    k = draw(st.sampled_from([6, 3]))
    S = [k * (i + 1) for i in range(draw(st.integers(1, 4)))]
    if draw(st.booleans()):
        S = [0] + S
    n = 6
    conv = draw(st.sampled_from(['lin', 'quad', 'lin_cut', 'quad_cut', 'ident', 'ident_cut', None, 'gen', 'gen_cut', 'undef_cut']))
    return dict(kind=kind, S=S, a=draw(st.sampled_from([k, min(2 * k, S[-1])])), conv=conv, gen=draw(expression(2)), half=kind == 'average' and draw(st.booleans()),
                cut_as=[draw(st.sampled_from([False, False, 'False', 'false', 'N', 'no', 'n', 'F'])), draw(st.sampled_from([True, True, 'True', 'true', 'Y', 'yes', 'y', 'T', 'TRUE']))],
                fields=[dict(v=draw(st.one_of(gen.values(n, -50, 50), gen.values(n, 0, 300, missing_code=True))), m=draw(gen.masks(n))) for _ in S],
                fmt=draw(st.sampled_from(['pcraster', 'netcdf'])), edition=draw(st.sampled_from([1, 2])), single=draw(st.booleans()), order=draw(st.permutations(range(len(S)))))


FUNCS = {'lin': 'x*2-5', 'quad': 'x*x/10-30', 'ident': 'x'}


def run_check(case, rec):
    kind, S, a = case['kind'], case['S'], case['a']
    conv = case['conv']
    name = conv.split('_')[0] if conv else None
    cut = bool(conv) and conv.endswith('_cut')
    func = case['gen'] if name == 'gen' else FUNCS.get(name, 'x')
    confs = []
    for c in ('lin', 'quad', 'ident', 'gen'):
        f = case['gen'] if c == 'gen' else FUNCS[c]
        confs += [{'@id': c, '@function': 'x=' + f, '@unit': 'u_' + c, '@cutOffNegative': case['cut_as'][0]}, {'@id': c + '_cut', '@function': 'x=' + f, '@unit': 'u_' + c, '@cutOffNegative': case['cut_as'][1]}]
    confs.append({'@id': 'undef', '@function': 'x=x+1000', '@unit': 'u'})
    if name == 'undef':
        conv, cut, func = 'undef', False, 'x+1000'
    if case['single'] and conv:
        confs = next(c for c in confs if c['@id'] == conv)
    with world.World({'2t': {'@description': 'd', '@shortName': '2t', '@unit': 'K', 'Conversion': confs}}) as w:
        grid = dict(GRID, ni=3, nj=2)
        g = world.write_grib(w.p('in.grb'), [dict(grid=grid, values=case['fields'][i]['v'], missing=case['fields'][i]['m'], edition=case['edition'], end=S[i]) for i in case['order']])
        F = {d['endStep']: np.ma.array(d['values'] if func == 'x' else evaluate(func, d['values']), mask=d['mask']) for d in world.read_grib(g)}
        maps = target_on_grid(w, 3, 2)
        agg = None
        if kind:
            agg = {'@step': a, '@type': kind}
            if case['half']:
                agg['@halfweights'] = True
        c = w.command('c.json', maps, 'grib_nearest', parameter={'@applyConversion': conv} if conv else {}, aggregation=agg, outmaps={'@namePrefix': 'o', '@unitTime': 24})
        r = w.run('-c', c, '-i', g, '-o', w.out, '-B', '-F', case['fmt'])
        if kind == 'accumulation':
            want = aggr.accumulation(F, a, 24, 0, S[-1], False)
        elif kind == 'average':
            if case['half'] and any(t - a not in F or t not in F for t in range(a, S[-1] + 1, a)):
                rec.label('skipped: half weights without both ends')
                return
            want = {(t - a, t): aggr.average_half_window(F, t - a, t)[0] for t in range(a, S[-1] + 1, a)} if case['half'] else aggr.average(F, a, 0, S[-1])
        elif kind == 'instantaneous':
            want = aggr.instantaneous(F, a, 0, S[-1])
        else:
            want = {(s, s): F[s] for s in S}
        expect(r.exc is None and r.status == 0, lambda: f'run failed: {r}')
        got = w.maps(case['fmt'])
        expect(got.shape[0] == len(want), lambda: f'{got.shape[0]} maps, expected {sorted(want)}')
        scale = max(1.0, max(float(np.max(np.abs(np.where(np.ma.getmaskarray(f), 0, np.ma.getdata(f))))) for f in F.values()) * (24 / a * 2 if kind == 'accumulation' else 1))
        neg = False
        for gmap, key in zip(got, sorted(want)):
            wv, wm = aggr.split(want[key])
            neg |= bool((wv[~wm] < 0).any())
            if cut:
                wv = np.maximum(wv, 0)
                expect(not (gmap < 0).any(), lambda: f'map {key}: negative value {np.nanmin(gmap)} with cut-off')
            err = aggr.compare(np.ma.masked_invalid(gmap), np.ma.array(wv, mask=wm).reshape(gmap.shape), f'map {key} ({func}, {kind})', 2e-6, scale=scale)
            expect(err is None, err)
        rec.label(f'conv {case["conv"]}', f'agg {kind}', 'negative' if neg else 'not negative', case['fmt'], f'cut-off written {case["cut_as"][cut]!r}')
        rec.hit(conv is not None and (neg or func != 'x'))


CHECK = Check(
    'C05',
    [Sub('converter', unit_case, unit_check, 6000, 200000, rule='generated functions of x, values (with the missing code among them) and masks given to the converter; non-trivial: a function other than the identity and a valid value'),
     Sub('runs', run_case_, run_check, 1800, 60000,
         rule='whole runs with configured conversions (linear, quadratic, generated; with, without or undefined cut-off) and aggregations; non-trivial: a conversion is applied and changes or leaves negative values')],
    rule='the configured function evaluated by numpy, then the reference aggregation, then the cut-off; non-trivial as given per sub-check', quick_s=45)
