"""C25 downloads of the data folders (-W): complete files, once, in the right folder."""
import ftplib
import json
import os
import random
import signal
import socket
import string
import struct
import threading

from hypothesis import strategies as st

from .. import world
from ..engine import Check, Sub, expect

DATASETS = ('intertables', 'geopotentials')
SIZES = [0, 1, 100, 8191, 8192, 8193, 20000, 70000]
FAULTS = ['none', 'none', 'login', 'folder', 'list', 'refused', 'cut data', 'reset data', 'aborted', 'lost', 'killed', 'no server']
NAMES = ['t_1.npy.gz', 'I_0_10_4_4.npy', 'a.grb', 'readme.txt', 'README.txt', 'x y.npy', 'é.grb', 'noext', '.hidden', 't_1.npy.gz.part', 't_1.npy', 'b.grb', 'readme.txt.gz', 'c=d.npy', 'geo.grb']


@st.composite
def case_(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique=True))
    files = [dict(name=n, size=draw(st.sampled_from(SIZES)), seed=draw(st.integers(0, 999)), text=draw(st.booleans())) for n in names]
    local = [dict(name=n, size=draw(st.sampled_from([0, 5, 300])), seed=draw(st.integers(0, 999))) for n in draw(st.lists(st.sampled_from(NAMES + ['mine.npy', 'own.grb']), max_size=3, unique=True))]
    runs = [dict(fault=draw(st.sampled_from(FAULTS)), at=draw(st.integers(0, 5)), part=draw(st.sampled_from([0, 0.2, 0.5, 0.9, 1])), dataset=draw(st.sampled_from([0, 0, 0, 1]))) for _ in range(draw(st.integers(1, 3)))]
    return dict(files=files, local=local, runs=runs, folder=draw(st.sampled_from(['', 'pyg2p', 'data/p g'])), listing=draw(st.sampled_from(['names', 'names', 'names', 'with dots', 'paths', 'full paths', 'parents'])),
                user=draw(st.sampled_from(['u', 'us er', 'é'])), pwd=draw(st.sampled_from(['p', 'a=b c', ''])), where=draw(st.sampled_from(['user', 'user', 'global'])), changed=draw(st.booleans()))


def content(f):
    r = random.Random(f['seed'])
    if f.get('text'):
        return ''.join(r.choice('ab\r\n\r\n') for _ in range(f['size'])).encode()
    return r.randbytes(f['size'])


class Server(threading.Thread):
    """A small FTP server of one connection at a time, with a fault on request."""

    def __init__(self, tree, user, pwd, listing):
        super().__init__(daemon=True)
        self.tree, self.user, self.pwd, self.listing = tree, user, pwd, listing     # folder -> {name: bytes}
        self.sock = socket.create_server(('127.0.0.1', 0))
        self.port = self.sock.getsockname()[1]
        self.fault, self.at, self.part, self.victim = 'none', 0, 0, None
        self.hit = False
        self.sent = []
        self.refusals = []
        self.done = threading.Event()

    def run(self):
        while not self.done.is_set():
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            try:
                self.session(c)
            except OSError:
                pass
            c.close()

    def stop(self):
        self.done.set()
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()

    def session(self, c):
        c.settimeout(20)
        f = c.makefile('rb')
        say = lambda t: c.sendall(t.encode() + b'\r\n')
        say('220 ready')
        logged, name, cwd, ascii_, passive, n = False, None, '/', True, None, 0
        while True:
            line = f.readline()
            if not line:
                return
            cmd, _, arg = line.decode().rstrip('\r\n').partition(' ')
            cmd = cmd.upper()
            if cmd == 'USER':
                name = arg
                say('331 password')
            elif cmd == 'PASS':
                logged = name == self.user and arg == self.pwd and self.fault != 'login'
                self.hit |= self.fault == 'login'
                if not logged:
                    self.refusals.append((name, arg))
                say('230 in' if logged else '530 no')
            elif not logged and cmd != 'QUIT':
                say('530 no')
            elif cmd == 'TYPE':
                ascii_ = arg.upper().startswith('A')
                say('200 ok')
            elif cmd == 'PWD':
                say(f'257 "{cwd}"')
            elif cmd == 'CWD':
                new = os.path.normpath(os.path.join(cwd, arg)).replace('//', '/')
                if new in self.tree and self.fault != 'folder':
                    cwd = new
                    say('250 ok')
                else:
                    self.hit |= self.fault == 'folder'
                    self.refusals.append(arg)
                    say('550 no such folder')
            elif cmd in ('PASV', 'EPSV'):
                if passive:
                    passive.close()
                passive = socket.create_server(('127.0.0.1', 0))
                passive.settimeout(20)
                p = passive.getsockname()[1]
                say(f'227 Entering Passive Mode (127,0,0,1,{p >> 8},{p & 255})' if cmd == 'PASV' else f'229 Entering Extended Passive Mode (|||{p}|)')
            elif cmd in ('NLST', 'LIST', 'MLSD', 'RETR', 'SIZE'):
                if cmd == 'SIZE' or cmd in ('LIST', 'MLSD'):
                    if cmd == 'SIZE' and os.path.basename(arg) in self.tree[cwd]:
                        say(f'213 {len(self.tree[cwd][os.path.basename(arg)])}')
                    else:
                        say('502 not here')
                    continue
                fault = 'none'
                if cmd == 'NLST':
                    names = list(self.tree[cwd])
                    names = {'with dots': ['.', '..'] + names, 'paths': ['./' + x for x in names], 'full paths': [os.path.join(cwd, x) for x in names], 'parents': [f'../{os.path.basename(cwd)}/{x}' for x in names]}.get(self.listing, names)
                    data = ''.join(x + '\r\n' for x in names).encode()
                    if self.fault == 'list':
                        self.hit = True
                        say('550 no')
                        continue
                else:
                    path = os.path.normpath(os.path.join(cwd, arg)).replace('//', '/')
                    d, b = os.path.split(path)
                    if b not in self.tree.get(d, {}):
                        say('550 no such file')
                        continue
                    data = self.tree[d][b]
                    if ascii_:
                        data = data.replace(b'\n', b'\r\n')
                    if n == self.at:
                        fault = self.fault
                    n += 1
                    if fault == 'refused':
                        self.hit = True
                        say('550 permission denied')
                        continue
                s, _ = passive.accept()
                s.settimeout(20)
                say('150 here it is')
                k = int(len(data) * self.part)
                if fault in ('cut data', 'reset data', 'aborted', 'lost', 'killed'):
                    self.hit = True
                    s.sendall(data[:k])
                    if fault == 'killed' and self.victim:
                        # what was sent has arrived
                        for _ in range(3):
                            threading.Event().wait(0.01)
                        os.kill(self.victim, signal.SIGKILL)
                    if fault == 'reset data':
                        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                    if fault in ('lost', 'killed'):
                        s.close()
                        return
                    s.close()
                    say({'cut data': '426 connection closed', 'reset data': '426 connection closed', 'aborted': '451 local error'}[fault])
                else:
                    s.sendall(data)
                    s.close()
                    if cmd == 'RETR':
                        self.sent.append(arg)
                    say('226 done')
            elif cmd == 'QUIT':
                say('221 bye')
                return
            else:
                say('502 not here')


def check(case, rec):
    remote = {f['name']: content(f) for f in case['files']}
    with world.World() as w:
        downloads(case, rec, w, remote)


def downloads(case, rec, w, remote):
    # the folders of the server have the names of folders of the scratch world, so that files written out of the folder of the user land there
    base = w.p(case['folder']) if case['folder'] else '/'
    if case['listing'] in ('full paths', 'parents') and case['folder']:
        for d in DATASETS:
            os.makedirs(os.path.join(base, d))
    if case['listing'] == 'parents':
        for d in DATASETS:
            os.makedirs(w.p(d), exist_ok=True)
    tree = {os.path.join(base, DATASETS[0]): dict(remote), os.path.join(base, DATASETS[1]): {n: b[::-1] + b'g' for n, b in remote.items()}}
    faults = set()
    server = Server(tree, case['user'], case['pwd'], case['listing'])
    server.start()
    try:
        access = dict(host='127.0.0.1', user=case['user'], pwd=case['pwd'], folder=base)
        if case['where'] == 'global':
            # the file of the user has other things
            os.makedirs(w.p('configuration', 'global'))
            with open(w.p('configuration', 'global', 'ftp.json'), 'w') as f:
                json.dump(access, f)
            mine = {}
        else:
            mine = access
        with open(os.path.join(w.conf, 'ftp.json'), 'w') as f:
            json.dump(mine, f)
        for f in case['local']:
            with open(os.path.join(w.tables, f['name']), 'wb') as fh:
                fh.write(content(f))
        # the configuration is completed by the first run
        w.run('-g', w.p('none.grb'))
        folders = (w.tables, w.geos)
        have = [dict(), dict()]      # dataset -> name -> bytes
        for f in case['local']:
            have[0][f['name']] = content(f)
        wanted = lambda i: {n: b for n, b in tree[os.path.join(base, DATASETS[i])].items() if n != 'readme.txt'}
        # what the command of the user has to give at the end
        for i, r in enumerate([*case['runs'], dict(fault='none', at=0, part=0, dataset=0)]):
            ds = r['dataset']
            if case['changed'] and i == 1:
                # the files of the server are others now
                for d in tree.values():
                    for n in list(d)[::2]:
                        d[n] = d[n] + b'new'
            server.fault, server.at, server.part, server.hit, server.sent = r['fault'], r['at'], r['part'], False, []
            before = world.snapshot(w.dir)
            port, nobody = server.port, socket.socket()
            if r['fault'] == 'no server':
                # a port which is taken and refuses connections
                nobody.bind(('127.0.0.1', 0))
                port = nobody.getsockname()[1]
            what = f'run {i + 1}: -W {DATASETS[ds]}, {r["fault"]} at {r["at"]}'

            if r['fault'] == 'killed':
                # in a process of its own, which the server ends
                pipe = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.read(pipe[0], 1)
                        ftplib.FTP.port = port
                        w.run('-W', DATASETS[ds])
                    finally:
                        os._exit(0)
                server.victim = pid
                os.write(pipe[1], b'x')
                watch = threading.Timer(60, os.kill, (pid, signal.SIGKILL))
                watch.start()
                code = os.waitpid(pid, 0)[1]
                watch.cancel()
                os.close(pipe[0])
                os.close(pipe[1])
                killed = server.hit
                status, exc, errors = (None if killed else 0), None, []
            else:
                saved = ftplib.FTP.port
                ftplib.FTP.port = port
                try:
                    res = w.run('-W', DATASETS[ds])
                finally:
                    ftplib.FTP.port = saved
                status, exc, errors = res.status, res.exc, res.log
                killed = False
            nobody.close()
            failed = r['fault'] in ('login', 'folder', 'list', 'no server') or server.hit
            want = wanted(ds)
            todo = [n for n in want if n not in have[ds]]
            if not killed:
                expect(exc is None, lambda: f'{what}: {exc}')
                if r['fault'] in ('login', 'folder', 'list', 'no server') or failed:
                    expect(status == 1, lambda: f'{what}: status {status}')
                    expect(errors, lambda: f'{what}: no error reported')
                else:
                    expect(status == 0, lambda: f'{what}: status {status} {errors}, server refused {server.refusals}')
            faults.add(r['fault'] if failed else 'none')
            # the folder of the data set
            now = {n: open(os.path.join(folders[ds], n), 'rb').read() for n in os.listdir(folders[ds]) if os.path.isfile(os.path.join(folders[ds], n))}
            for n, b in have[ds].items():
                expect(now.get(n) == b, lambda: f'{what}: {n} was there before, and is {"gone" if n not in now else "changed"}')
            for n in want:
                if n in have[ds] or n not in now:
                    continue
                expect(now[n] == want[n], lambda: f'{what}: {n} has {len(now[n])} bytes which are not the {len(want[n])} of the server')
            if not failed:
                gone = [n for n in todo if n not in now]
                expect(not gone, lambda: f'{what}: status 0 but {gone} are missing')
                extra = set(now) - set(have[ds]) - set(want)
                if 'killed' not in faults:
                    expect(not extra, lambda: f'{what}: {extra} are new, of the server are {sorted(want)}')
            have[ds] = {**have[ds], **{n: b for n, b in now.items() if n in want}}
            # and nothing else
            other = [f for f in world.changes(before, world.snapshot(w.dir)) if not f.startswith(folders[ds] + os.sep)]
            expect(not other, lambda: f'{what}: {other} changed')
            expect(not set(x for x in server.sent if os.path.basename(x) not in todo), lambda: f'{what}: {server.sent} were sent, missing were only {todo}')
    finally:
        server.stop()
        server.join(5)
    rec.label(*faults, case['listing'], case['where'], f'{len(remote)} files', *(['files there before'] if set(remote) & {f['name'] for f in case['local']} else []), *(['other files on the server'] if case['changed'] and case['runs'] else []))
    rec.hit(len(wanted(0)) > 0 and (len(faults) > 1 or len(case['runs']) > 1))


CHECK = Check(
    'C25', [Sub('downloads', case_, check, 900, 40000,
                rule='up to four downloads from a server of the check, with login, folder, listing, transfer and connection failures at any file and byte, the program killed in the middle of a file, files there before, listings with '
                     'names or paths and all sizes around the buffers; non-trivial: several runs, or a failure')],
    rule='after every run the folders, byte by byte, against the content of the server and of the folders before',
    assumptions=['the server is on the loopback network, on the default port as ftplib knows it', 'folders left behind by a killed program are not judged'], quick_s=60)
