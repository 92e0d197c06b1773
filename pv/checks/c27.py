"""C27 commands of the same user at the same time."""
import os
import pickle
import select
import signal
import time

from hypothesis import strategies as st

from .. import actors, world
from ..engine import Check, Sub, expect


@st.composite
def case_(draw):
    sc = draw(actors.scene())
    before = draw(st.lists(actors.action(sc, ('run', 'add')), max_size=1))
    one = draw(actors.action(sc, ('run', 'run', 'run', 'add')))
    two = draw(actors.action(sc, ('run', 'run', 'run', 'add')))
    if one['op'] == two['op'] and draw(st.sampled_from([True, True, False])):
        # names which collide
        two = dict(one, **({'t': 1 - one['t']} if one['op'] == 'run' else {'s': 1 - one['s']}))
    # who goes on, up to which of its file operations
    segments, at = [], [0, 0]
    who = 0
    for _ in range(draw(st.integers(1, 4))):
        at[who] += draw(st.integers(1, 30))
        segments.append([who, at[who]])
        who = 1 - who
    return dict(scene=sc, before=before, actors=[one, two], segments=segments, reset=draw(st.booleans()), first=draw(st.booleans()))


class Actor:
    """A command in a process of its own, which stops at some of its file operations."""

    def __init__(self, w, s, argv):
        self.up, up = os.pipe()
        down, self.down = os.pipe()
        self.state, self.result = 'stopped', None
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                os.close(self.up)
                os.close(self.down)
                limit = [int(os.read(down, 16))]

                def event(k, name, path):
                    if k == limit[0]:
                        os.write(up, b'p')
                        limit[0] = int(os.read(down, 16))

                actors.watch((world.SCRATCH,), event, reads=True)
                r = s.do(argv)
                with os.fdopen(up, 'wb') as f:
                    f.write(b'd' + pickle.dumps((r.status, repr(r.exc) if r.exc is not None else None, r.log)))
                code = 0
            finally:
                os._exit(code)
        os.close(up)
        os.close(down)

    def cpu(self):
        try:
            with open(f'/proc/{self.pid}/stat') as f:
                x = f.read().rsplit(')', 1)[1].split()
            return x[0], x[11], x[12]
        except OSError:
            return None

    def go(self, limit):
        if self.state == 'done':
            return
        if self.state == 'stopped':
            self.state = 'going'
            os.write(self.down, str(limit).encode())

    def wait(self, end, blocked=True):
        """Until it stops, ends, or waits for something (the other one)."""
        last, since = None, time.monotonic()
        while self.state == 'going':
            if select.select([self.up], [], [], 0.02)[0]:
                b = os.read(self.up, 1)
                if b == b'p':
                    self.state = 'stopped'
                else:
                    data = b''
                    while b:
                        data += b
                        b = os.read(self.up, 1 << 16)
                    self.state = 'done'
                    self.result = pickle.loads(data[1:]) if data else None
                return
            now = self.cpu()
            if now != last or now and now[0] != 'S':
                last, since = now, time.monotonic()
            if blocked and time.monotonic() - since > 0.3:
                return
            if time.monotonic() > end:
                return

    def close(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)
        os.close(self.up)
        os.close(self.down)


def check(case, rec):
    with world.World() as w:
        s = actors.Scene(w, case['scene'])
        one, two = case['actors']
        actions = case['before'] + [one, two]
        s.prepare(actions)
        for a in case['before']:
            s.again(a, f'first {a}', True)
        if not case['before'] and not case['reset']:
            # the configuration has been made
            w.run('-g', w.p('none.grb'))
        had = {n: s.registry(n) for n in ('intertables', 'geopotentials', 'parameters', 'ftp')}
        known = {s.sc_id(a['s']) for a in case['before'] if a['op'] == 'add'}
        args = [s.argv(a) for a in case['actors']]
        what = f'{one} and {two} at the same time, {case["segments"]}'
        both = [Actor(w, s, argv) for argv, out in args]
        stops = 0
        try:
            end = time.monotonic() + 60
            for who, at in case['segments']:
                both[who].go(at)
                both[who].wait(end)
                stops += both[who].state == 'stopped'
            while any(x.state != 'done' for x in both):
                for x in both if case['first'] else both[::-1]:
                    x.go(1 << 30)
                    x.wait(end)
                expect(time.monotonic() < end, lambda: f'{what}: they do not end ({[x.state for x in both]})')
            results = [x.result for x in both]
        finally:
            for x in both:
                x.close()
        for a, (argv, out), r, x in zip(case['actors'], args, results, 'AB'):
            expect(r is not None, lambda: f'{what}: {x} died')
            status, exc, log = r
            expect(exc is None, lambda: f'{what}: {x} ended in {exc}')
            if a['op'] == 'run':
                expect(status == 0, lambda: f'{what}: {x} ended with status {status} {log}')
                s.same(a, out, f'{what}: {x}')
            elif s.sc_id(a['s']) not in known and (one['op'], one['s']) != (two['op'], two['s']):
                expect(status == 0, lambda: f'{what}: {x} ended with status {status} {log}')
        for n, old in had.items():
            new = s.registry(n)
            for k, x in old.items():
                expect(new.get(k) == x, lambda: f'{what}: {k}: {x} has become {new.get(k)} in {n}.json')
        # everything which was made is there, and right
        for a in actions:
            s.again(a, f'{what}, then {a}', False)
    rec.label(one['op'] + ' and ' + two['op'], f'{stops} stops', *(['first use'] if case['reset'] and not case['before'] else []), *(['same command'] if one == two else []))
    rec.hit(stops > 0)


CHECK = Check(
    'C27', [Sub('schedules', case_, check, 700, 20000,
                rule='two commands of one user, each a process, among runs which create tables and additions of geopotentials, with tables and files of the same names, the same table, or the first use of the configuration; '
                     'up to four changes between them before any of their file operations; non-trivial: a process was stopped while the other one went on')],
    rule='the maps of both against undisturbed runs, and all that they registered against what they used',
    assumptions=['schedules are those of Python file operations (opening, renaming, listing, removing, folders)', 'a process which waits for the other one is not a failure'], quick_s=60)
