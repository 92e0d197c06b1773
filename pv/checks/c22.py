"""C22 a whole run is the composition of its stages."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import request, world
from ..engine import Check, Sub, expect
from . import c10


def check(case, rec):
    c10.quick_progress()
    with world.World() as w:
        q = request.Request(w, case)
        want = q.expected()
        if want is None:
            rec.label('skipped: not settled by the documentation')
            return
        for r in q.register():
            expect(r.status == 0, lambda: f'adding a geopotential failed: {r}')
        r = w.run(*q.argv(w.out))
        expect(r.exc is None and r.status == 0, lambda: f'the run failed: {r}')
        err = request.difference(request.written(w, case['fmt'], w.out), want, case['fmt'], case['mode'])
        expect(err is None, err)
        if case['order'] % 3 == 0:
            # once more with the stored tables, and without what is not asked for
            if not case['noise'] and case['two'] != 'one file':
                r = w.run(*q.argv(w.p('again'), files=q.clean, create=False))
            else:
                r = w.run(*q.argv(w.p('again'), create=False))
            expect(r.exc is None and r.status == 0, lambda: f'the second run failed: {r}')
            err = request.difference(request.written(w, case['fmt'], w.p('again')), want, case['fmt'], case['mode'])
            expect(err is None, lambda: f'with stored tables: {err}')
    stages = (case['conv'] is not None) + (case['kind'] is not None) + (case['corr'] is not None) + bool(case['conv'] in request.CUT) + (case['two'] is not None) + bool(case['masked'])
    rec.label(case['mode'], case['fmt'], case['short'], f'kind {case["kind"]}', f'{min(stages, 4)} stages', f'{min(len(want), 4)} maps', *(['two resolutions'] if case['two'] else []), *(['corrected'] if case['corr'] else []), *(['among others'] if case['noise'] else []))
    rec.hit(stages >= 2 and any((~np.isnan(x)).any() for _, x in want))


def warm():
    from . import c08
    c08.warm()


CHECK = Check(
    'C22', [Sub('runs', request.case_, check, 3000, 100000,
                rule='whole runs with generated parameters, steps, selections among other messages, conversions, aggregations, corrections, masks, modes, one or two resolutions and formats, messages in any order; non-trivial: at least '
                     'two stages besides interpolation, and a cell with a value')],
    rule='the stages computed one after the other with numpy on the fields as ecCodes stores them; neighbours by exhaustive search or from ecCodes itself',
    assumptions=['windows which cross the change of resolution are not judged', 'target cells are between source points, the other modes are those of C08 and C09'], quick_s=70, warm=warm)
