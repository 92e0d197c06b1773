"""Sub-checks, the record of a case, and the search loop of one shard."""
import gc
import hashlib
import json
import os
import signal
import sys
import time
import traceback

from .boot import HarnessError, REPO

CASE_CPU_S = 90


class Violation(AssertionError):
    """The property does not hold for this case."""


def fail(message):
    raise Violation(message)


def expect(cond, message):
    if not cond:
        raise Violation(message() if callable(message) else message)


class Rec:
    """What one case exercised: labels for the distribution, and whether it counts as non-trivial."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.extra = 0

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def hit(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub:
    """One generated check. make(): hypothesis strategy of JSON-able cases; check(case, rec) raises Violation."""

    def __init__(self, name, make, check, quick, thorough=None, rule='', seeds=(), warm=None):
        self.name, self.make, self.check, self.quick = name, make, check, quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule, self.seeds, self.warm = rule, list(seeds), warm


class Known:
    """A recorded defect: probe() returns True while the exact recorded input still fails."""

    def __init__(self, id_, what, probe):
        self.id, self.what, self.probe = id_, what, probe


class Check:
    def __init__(self, prop, subs, rule, known=(), assumptions=(), quick_s=60, thorough_s=1500, shards=8, warm=None):
        self.prop, self.subs, self.rule, self.known = prop, subs, rule, list(known)
        self.assumptions, self.quick_s, self.thorough_s, self.shards = list(assumptions), quick_s, thorough_s, shards
        self.warm = warm


class CaseTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout()


def canonical(case):
    return json.dumps(case, sort_keys=True)


def case_hash(case):
    return hashlib.blake2b(canonical(case).encode(), digest_size=8).hexdigest()


def from_code_under_test(exc):
    """True when the exception passed through the repository's source."""
    src = os.path.join(REPO, 'src') + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(src):
            return True
        tb = tb.tb_next
    return False


def _where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in reversed(tb[-4:]))


def run_case(sub, case):
    """-> (rec, error or None). Raises HarnessError for anything that is the check's own fault."""
    rec = Rec()
    old = signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    cwd = os.getcwd()
    # the code under test collects garbage explicitly: keep what exists already out of those collections
    gc.freeze()
    try:
        sub.check(case, rec)
        return rec, None
    except Violation as e:
        return rec, str(e)
    except CaseTimeout:
        return rec, f'no answer after {CASE_CPU_S} s of processor time'
    except (KeyboardInterrupt, HarnessError, MemoryError):
        raise
    except BaseException as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        if from_code_under_test(e):
            return rec, f'unexpected {type(e).__name__}: {e} [{_where(e)}]'
        raise HarnessError(f'{sub.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}\ncase={canonical(case)[:3000]}') from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        os.chdir(cwd)


class SubStats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.truncated = False
        self.failure = None     # (case, error)
        self.seconds = 0.0

    def add(self, case, rec):
        self.evaluations += 1
        for l in rec.labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if rec.nontrivial:
            self.nontrivial.add(case_hash(case))
            if len(self.samples) < 2 and self.evaluations > 3:
                self.samples.append(case)

    def as_dict(self):
        return dict(evaluations=self.evaluations, nontrivial=sorted(self.nontrivial), labels=self.labels, samples=self.samples,
                    truncated=self.truncated, failure=self.failure, seconds=self.seconds)


def search(sub, n, seed, budget_s, before_case=lambda case: None, seeds=True):
    """Explicit seed cases, then n generated ones; stops at the first (shrunk) failure."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    st = SubStats()
    t0 = time.monotonic()
    state = dict(best=None, fail_at=None)
    shrink_s = min(40.0, max(15.0, budget_s / 2))

    def one(case):
        before_case(case)
        rec, err = run_case(sub, case)
        st.add(case, rec)
        return err

    if seeds:
        for case in sub.seeds:
            err = one(case)
            if err:
                st.failure = (case, err)
                st.seconds = time.monotonic() - t0
                return st

    def body(case):
        now = time.monotonic()
        if state['best'] is None:
            if now - t0 > budget_s:
                st.truncated = True
                return
        elif now - state['fail_at'] > shrink_s:
            # out of shrinking time: only the best case found keeps failing
            if canonical(case) == canonical(state['best'][0]):
                raise Violation(state['best'][1])
            return
        err = one(case)
        if err:
            if state['best'] is None:
                state['fail_at'] = now
            state['best'] = (case, err)
            raise Violation(err)

    if n > 0:
        test = given(sub.make())(body)
        test = settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False, print_blob=False,
                        phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck))(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except Violation:
            pass
        except HarnessError:
            raise
        except BaseException as e:
            if state['best'] is None:
                raise
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
        if state['best'] is not None:
            st.failure = state['best']
    st.seconds = time.monotonic() - t0
    return st
