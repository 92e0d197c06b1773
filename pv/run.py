"""python -m pv.run C01 [--tier quick|thorough] [--replay FILE] [--scale X] [--sub NAME] [--shards N]"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import boot as _boot

VERIF = _boot.VERIF


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def load(prop):
    return importlib.import_module(f'pv.checks.{prop.lower()}').CHECK


def derive(*parts):
    return int.from_bytes(hashlib.blake2b('/'.join(str(p) for p in parts).encode(), digest_size=6).digest(), 'big')


# ------------------------------------------------------------------ child
def child(args):
    scratch = _boot.boot()
    from . import engine
    check = load(args.prop)
    out = {'subs': {}, 'error': None}
    cur = args.out + '.case'

    def before(sub):
        def f(case):
            with open(cur, 'w') as fh:
                json.dump({'sub': sub.name, 'case': case}, fh)
        return f
    try:
        if args.warm:
            if check.warm:
                check.warm()
        elif args.known:
            out['known'] = {k.id: bool(k.probe()) for k in check.known}
        else:
            budget = args.budget
            total = float(sum(s.quick for s in check.subs)) or 1.0
            subs = [s for s in check.subs if not args.sub or s.name == args.sub]
            deadline = time.monotonic() + budget
            weights = {s.name: getattr(s, 'weight', 1.0) for s in subs}
            for i, s in enumerate(subs):
                n = s.quick if args.tier == 'quick' else s.thorough
                n = int(n * args.scale)
                mine = n // args.shards + (1 if args.shard < n % args.shards else 0)
                left = max(5.0, deadline - time.monotonic())
                rest = sum(weights[x.name] for x in subs[i:])
                share = left if i == len(subs) - 1 else max(5.0, left * max(0.5, weights[s.name] / rest))
                st = engine.search(s, mine, derive(args.seed, args.prop, s.name, args.shard), share, before(s), seeds=args.shard == i % args.shards)
                out['subs'][s.name] = st.as_dict()
                with open(args.out, 'w') as f:
                    json.dump(out, f)
                if st.failure:
                    break
    except BaseException as e:
        import traceback
        out['error'] = traceback.format_exc() if not isinstance(e, _boot.HarnessError) else str(e)
    with open(args.out, 'w') as f:
        json.dump(out, f)
    if os.path.exists(cur):
        os.unlink(cur)
    os.chdir('/')
    shutil.rmtree(scratch, ignore_errors=True)
    sys.stderr.flush()
    os._exit(0)


def child_replay(args):
    scratch = _boot.boot()
    from . import engine
    check = load(args.prop)
    with open(args.replay) as f:
        r = json.load(f)
    sub = next((s for s in check.subs if s.name == r['sub']), None)
    code = 0
    try:
        if check.warm:
            check.warm()
        if sub is None:
            k = next(k for k in check.known if k.id == r['sub'])
            err = k.what if k.probe() else None
        else:
            rec, err = engine.run_case(sub, r['case'])
        if err:
            log(f'replay: {err}')
            code = 1
        else:
            log('replay: the property holds for this case')
    except BaseException as e:
        log(f'replay error: {e}')
        code = 2
    os.chdir('/')
    shutil.rmtree(scratch, ignore_errors=True)
    sys.stderr.flush()
    os._exit(code)


# ------------------------------------------------------------------ parent
def spawn(extra, env, logfile):
    return subprocess.Popen([sys.executable, '-m', 'pv.run', *extra], cwd=VERIF, env=env, stdout=subprocess.DEVNULL, stderr=logfile, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def signame(code):
    try:
        return signal.Signals(-code).name
    except ValueError:
        return str(code)


def save_replay(prop, sub, case, error):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, f'{prop}_{sub}_{h}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'sub': sub, 'case': case, 'error': error,
                   'how': f'cd /verif && /opt/venv/bin/python -m pv.run {prop} --replay {path}'}, f, indent=1)
    return path


def parent(args):
    t0 = time.monotonic()
    work = tempfile.mkdtemp(prefix='pvrun_')
    env = dict(os.environ)
    env['PV_DEPS'] = _boot.find_deps()
    env['PV_NUMBA_CACHE'] = os.path.join(work, 'numba')
    env['TMPDIR'] = work
    env.setdefault('PYTHONHASHSEED', '0')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    procs = []
    try:
        return _parent(args, work, env, procs, t0)
    finally:
        for p in procs:
            kill(p)
        shutil.rmtree(work, ignore_errors=True)


def _parent(args, work, env, procs, t0):
    prop, seed = args.prop, args.seed
    sys.path.append(env['PV_DEPS'])
    # the parent never imports the code under test: the check's shape is read by a child
    logf = open(os.path.join(work, 'log'), 'w+')
    meta_path = os.path.join(work, 'meta')
    p = spawn([prop, '--meta', meta_path], env, logf)
    procs.append(p)
    try:
        p.wait(timeout=300)
    except subprocess.TimeoutExpired:
        pass
    if not os.path.exists(meta_path):
        logf.seek(0)
        log(logf.read()[-4000:])
        log(f'{prop}: the check could not be loaded (exit {p.returncode})')
        return 2
    with open(meta_path) as f:
        meta = json.load(f)
    budget = args.budget or (meta['quick_s'] if args.tier == 'quick' else meta['thorough_s'])
    shards = args.shards or meta['shards']
    base = [prop, '--tier', args.tier, '--seed', str(seed), '--scale', str(args.scale), '--budget', str(budget), '--shards', str(shards)]
    if args.sub:
        base += ['--sub', args.sub]
    if meta['warm']:
        p = spawn([prop, '--child', '--warm', '--out', os.path.join(work, 'warm')], env, logf)
        procs.append(p)
        p.wait(timeout=600)
    runs = []
    if meta['known'] and not args.sub:
        out = os.path.join(work, 'known')
        runs.append(('known', out, spawn([prop, '--child', '--known', '--out', out], env, logf)))
    for i in range(shards):
        out = os.path.join(work, f's{i}')
        runs.append((i, out, spawn(base + ['--child', '--shard', str(i), '--out', out], env, logf)))
    procs += [r[2] for r in runs]
    # a failing shard ends the search early (its peers get a short grace to finish)
    hard = time.monotonic() + budget * 1.5 + 240
    found = None
    stuck = set()
    while any(r[2].poll() is None for r in runs):
        time.sleep(0.05)
        now = time.monotonic()
        if found is None:
            for i, out, p in runs:
                if p.poll() is not None and p.returncode != 0:
                    found = now
                if p.poll() is not None and i != 'known' and os.path.exists(out):
                    try:
                        with open(out) as f:
                            d = json.load(f)
                    except ValueError:
                        continue
                    if d['error'] or any(s['failure'] for s in d['subs'].values()):
                        found = now
        if (found is not None and now - found > 45) or now > hard:
            for i, out, p in runs:
                if p.poll() is None:
                    if now > hard:
                        stuck.add(i)
                    kill(p)
    merged, failures, errors, known = {}, [], [], {}
    for i, out, p in runs:
        d = None
        if os.path.exists(out):
            try:
                with open(out) as f:
                    d = json.load(f)
            except ValueError:
                d = None
        if d:
            if d.get('error'):
                errors.append(f'shard {i}: {d["error"]}')
            known.update(d.get('known', {}))
            for name, s in d['subs'].items():
                m = merged.setdefault(name, dict(evaluations=0, nontrivial=set(), labels={}, samples=[], truncated=False, seconds=0.0))
                m['evaluations'] += s['evaluations']
                m['nontrivial'].update(s['nontrivial'])
                for k, v in s['labels'].items():
                    m['labels'][k] = m['labels'].get(k, 0) + v
                m['samples'] += s['samples']
                m['truncated'] |= s['truncated']
                m['seconds'] = max(m['seconds'], s['seconds'])
                if s['failure']:
                    failures.append((name, s['failure'][0], s['failure'][1]))
        if p.returncode != 0:
            case = None
            try:
                with open(out + '.case') as f:
                    case = json.load(f)
            except (OSError, ValueError):
                pass
            if i in stuck and case:
                failures.append((case['sub'], case['case'], 'the run never ended (the interpreter was stuck)'))
            elif p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL) and case:
                failures.append((case['sub'], case['case'], f'the interpreter died with {signame(p.returncode)}'))
            elif p.returncode == -signal.SIGKILL and found is not None:
                pass
            else:
                errors.append(f'shard {i}: exit {p.returncode}')
    # confirm each failure in a process of its own
    confirmed = []
    failures.sort(key=lambda x: len(json.dumps(x[1])))
    for name, case, err in failures[:4]:
        path = save_replay(prop, name, case, err)
        q = spawn([prop, '--replay', path, '--child'], env, logf)
        procs.append(q)
        try:
            q.wait(timeout=300)
            rc = q.returncode
        except subprocess.TimeoutExpired:
            kill(q)
            rc = -9
        again = rc not in (0, 2)
        confirmed.append((name, path, err, again))
    confirmed.sort(key=lambda c: not c[3])
    wall = time.monotonic() - t0
    ev = dict(property=prop, tier=args.tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=len(failures), assumptions=meta['assumptions'])
    cov = dict(evaluations=sum(m['evaluations'] for m in merged.values()), distinct_nontrivial=sum(len(m['nontrivial']) for m in merged.values()),
               rule=meta['rule'], samples=[{'sub': n, 'case': c} for n, m in merged.items() for c in m['samples'][:2]],
               subchecks={n: dict(evaluations=m['evaluations'], distinct_nontrivial=len(m['nontrivial']), rule=meta['rules'].get(n, ''),
                                  labels=dict(sorted(m['labels'].items())), stopped_by_time_budget=m['truncated'], seconds=round(m['seconds'], 1)) for n, m in merged.items()},
               shards=shards, known_findings={k: ('still fails' if v else 'no longer fails') for k, v in known.items()})
    ev['coverage'] = cov
    if not args.sub:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if args.verbose:
        print(json.dumps({k: v for k, v in cov.items() if k != 'samples'}, indent=1))
    print(f'{prop} {args.tier} seed={seed}: {cov["evaluations"]} cases, {cov["distinct_nontrivial"]} distinct non-trivial, {wall:.1f} s')
    listed = {}
    if meta['known']:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            listed = {k['id']: k for k in json.load(f)['known'] if k['property'] == prop}
    for k in meta['known']:
        if known.get(k['id']):
            if k['id'] in listed:
                print(f'KNOWN-FINDING: property={prop} {listed[k["id"]]["what"]}')
            else:
                confirmed.append((k['id'], save_replay(prop, k['id'], {'probe': k['id']}, k['what']), k['what'], True))
    if confirmed:
        for name, path, err, again in confirmed:
            print(f'  {name}: {err[:1500]}' + ('' if again else '  (seen during the search; not reproduced by the case alone)'))
        print(f'VIOLATION property={prop} replay={confirmed[0][1]}')
        return 1
    if errors:
        for e in errors[:3]:
            log(e[-4000:])
        log(f'{prop}: error of the check')
        return 2
    return 0


def child_meta(args):
    scratch = _boot.boot()
    c = load(args.prop)
    d = dict(quick_s=c.quick_s, thorough_s=c.thorough_s, shards=c.shards, warm=bool(c.warm), assumptions=c.assumptions, rule=c.rule,
             rules={s.name: s.rule for s in c.subs}, known=[dict(id=k.id, what=k.what) for k in c.known])
    with open(args.meta + '.tmp', 'w') as f:
        json.dump(d, f)
    os.rename(args.meta + '.tmp', args.meta)
    os.chdir('/')
    shutil.rmtree(scratch, ignore_errors=True)
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--shards', type=int)
    ap.add_argument('--sub')
    ap.add_argument('-v', '--verbose', action='store_true')
    ap.add_argument('--child', action='store_true', help=argparse.SUPPRESS)
    ap.add_argument('--known', action='store_true', help=argparse.SUPPRESS)
    ap.add_argument('--warm', action='store_true', help=argparse.SUPPRESS)
    ap.add_argument('--meta', help=argparse.SUPPRESS)
    ap.add_argument('--shard', type=int, default=0, help=argparse.SUPPRESS)
    ap.add_argument('--out', help=argparse.SUPPRESS)
    args = ap.parse_args()
    if args.meta:
        child_meta(args)
    if args.replay:
        if args.child:
            child_replay(args)
        rc = subprocess.call([sys.executable, '-m', 'pv.run', args.prop, '--replay', os.path.abspath(args.replay), '--child'], cwd=VERIF, stdout=subprocess.DEVNULL)
        if rc not in (0, 2):
            print(f'VIOLATION property={args.prop} replay={os.path.abspath(args.replay)}')
            return 1
        return rc
    if args.child:
        child(args)
    return parent(args)


if __name__ == '__main__':
    sys.exit(main())
