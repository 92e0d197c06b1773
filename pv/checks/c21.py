"""C21 files with two spatial resolutions."""
import numpy as np
from hypothesis import strategies as st

from .. import request, scene, world
from ..engine import Check, Sub, expect
from . import c10

TWO = ('one file', 'two files')


def composed_case():
    return request.case_(two=TWO).filter(lambda c: c['two'])


def composed_check(case, rec):
    c10.quick_progress()
    with world.World() as w:
        q = request.Request(w, case)
        want = q.expected()
        if want is None:
            rec.label('skipped: not settled by the documentation')
            return
        for r in q.register():
            expect(r.status == 0 or case['factor'] == 'same', lambda: f'adding a geopotential failed: {r}')
        if case['factor'] == 'same':
            q.gems[1:] = q.gems[:1]
            want = q.expected()
        r = w.run(*q.argv(w.out))
        expect(r.exc is None and r.status == 0, lambda: f'the run failed: {r}')
        err = request.difference(request.written(w, case['fmt'], w.out), want, case['fmt'], case['mode'])
        expect(err is None, err)
    rec.label(case['two'], f'second {case["factor"]}', case['mode'], case['fmt'], f'kind {case["kind"]}', f'{len(q.used)} resolutions', *(['both at the change'] if len(set(q.on[0]) & set(q.on[1])) else []), *(['start'] if q.start else []),
              *(['end'] if q.end else []), *(['corrected'] if case['corr'] else []), *(['missing'] if case['masked'] else []))
    rec.hit(len(q.used) == 2)


# ------------------------------------------------------------------ any mode: the runs on each resolution
@st.composite
def parts_case(draw):
    c = draw(request.case_(modes=('bilinear', 'triangulation', 'bilinear_delaunay', 'nearest', 'invdist', 'grib_nearest', 'grib_invdist'), two=TWO, generic=False).filter(lambda c: c['two'] and c['kind'] != 'instantaneous'))
    c['by_json'] = False
    c['force'] = False
    if draw(st.integers(0, 2)) == 1:
        # partly beyond the grids
        dy, dx = draw(st.sampled_from([0, -1.5, 1.5, -2.5, 0.75])), draw(st.sampled_from([0, -1.75, 1.5, 2.25]))
        c['tgt'] = dict(c['tgt'], ty=[y + dy for y in c['tgt']['ty']], tx=[x + dx for x in c['tgt']['tx']])
        c['outside'] = bool(dy or dx)
    return c


def steps_of(w, out):
    return request.written(w, 'netcdf', out)


def parts_check(case, rec):
    c10.quick_progress()
    kind, a = case['kind'], case['a']
    with world.World() as w:
        q = request.Request(w, dict(case, fmt='netcdf', clone_nc=False))
        for r in q.register():
            expect(r.status == 0 or case['factor'] == 'same', lambda: f'adding a geopotential failed: {r}')
        start, end = q.start or 0, q.end if q.end is not None else q.S[-1]
        rest = [(k, v) for k, v in zip(q.options[::2], q.options[1::2]) if k not in ('-s', '-e')]
        rest = [x for kv in rest for x in kv]
        if kind is None:
            if start == end:
                rec.label('skipped')
                return
            first, second = [s for s in q.on[0] if start <= s <= end], [s for s in q.on[1] if start <= s <= end]
            if second:
                first = [s for s in first if s < second[0]]
            ranges = [(start if first else None, end), (start if second else None, end)]
        else:
            border = max(s for s in q.on[0] if s <= q.change)
            s0 = start or a
            if kind != 'average' and border != q.change or (border - s0) % a or border < s0 or end < s0:
                rec.label('skipped: windows cross the change')
                return
            first, second = [t for t in range(s0, min(border, end) + 1, a)], [t for t in range(border + a, end + 1, a)]
            if kind == 'half' and any(t not in q.on[i] or t - a not in q.on[i] for i, x in enumerate((first, second)) for t in x):
                rec.label('skipped: half weights without both ends')
                return
            ranges = [(s0, min(border, end)), (border + a if second else None, end)]
        want = []
        for i, (x, (s, e)) in enumerate(zip((first, second), ranges)):
            if s is None or not x:
                continue
            f = q.clean[i]
            if kind == 'average' and i == 1:
                # the hours after the last step of the first resolution
                pass
            r = w.run(*q.argv(w.p(f'part{i}'), files=[f], options=rest + ['-s', s, '-e', e]))
            expect(r.exc is None and r.status == 0, lambda: f'the run on resolution {i + 1} failed: {r}')
            got = dict(steps_of(w, w.p(f'part{i}')))
            if set(x) - set(got):
                rec.label('skipped: selection of one step')
                return
            want += [(t, got[t]) for t in x]
        if not want:
            rec.label('skipped: nothing')
            return
        r = w.run(*q.argv(w.out))
        expect(r.exc is None and r.status == 0, lambda: f'the run with two resolutions failed: {r}')
        got = steps_of(w, w.out)
        expect([t for t, _ in got] == [t for t, _ in want], lambda: f'steps {[t for t, _ in got]}, of the runs on each resolution {[t for t, _ in want]}')
        for (t, g), (_, x) in zip(got, want):
            ok = np.isclose(g, x, rtol=1e-9, atol=1e-9, equal_nan=True)
            expect(ok.all(), lambda: f'step {t}: {g.tolist()}, on its resolution alone {x.tolist()}')
    rec.label(case['two'], f'second {case["factor"]}', case['mode'], f'kind {kind}', *(['partly outside'] if case.get('outside') else []), *(['missing'] if case['masked'] else []), *(['both at the change'] if len(set(q.on[0]) & set(q.on[1])) else []), *(['start'] if q.start else []), *(['end'] if q.end else []))
    rec.hit(bool(first) and bool(second))


def warm():
    from . import c08
    c08.warm()


CHECK = Check(
    'C21', [Sub('composed', composed_case, composed_check, 1500, 50000,
                rule='whole runs with two resolutions in one file (messages in any order) or two, against the stages computed with numpy; non-trivial: maps from both resolutions'),
            Sub('parts', parts_case, parts_check, 1200, 40000, rule='the same with all modes and missing values, against separate runs on each resolution; non-trivial: maps from both resolutions')],
    rule='every map, and the list of steps, against the computed stages or the runs on one resolution; see the sub-checks',
    assumptions=['windows which cross the change of resolution are not judged', 'at the step available at both resolutions the second one counts without aggregation, windows which end there use the first one'], quick_s=70, warm=warm)
