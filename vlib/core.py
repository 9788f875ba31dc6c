"""Common harness of all checks: seeds, budgets, verdicts, evidence.

A check is a function ``check(c)`` decorated with ``@check('K01')``; ``c`` is a
``Ctx``.  The function drives real code of /repo under a monitor and calls
``c.fail(...)`` when an oracle is contradicted.  Three verdicts:

* held          exit 0
* violated      exit 1 and a VIOLATION line with a replay file
* inconclusive  exit 2 (the monitor was not reached, harness error, watchdog)
"""
import contextlib
import hashlib
import io
import json
import math
import os
import random
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REGISTRY = {}
WATCH = None


class Violation(BaseException):
    """The property is broken (BaseException: model code cannot swallow it)."""

    def __init__(self, msg, details=None):
        super().__init__(msg)
        self.msg, self.details = msg, details or {}


class Inconclusive(BaseException):
    pass


def check(pid, rule, technique=None, samples=3):
    def deco(fn):
        REGISTRY[pid] = (fn, rule)
        return fn
    return deco


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)
    if isinstance(x, (str, int, bool, type(None))):
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:300]


def sig_hash(sig):
    return int.from_bytes(
        hashlib.blake2b(repr(sig).encode(), digest_size=8).digest(), 'big')


class Ctx:
    MAX_SIGS = 400_000

    def __init__(self, pid, tier, seed, scale=1.0, worker=0):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scale, self.worker = scale, worker
        self.rng = random.Random(f'{pid}:{seed}:{worker}')
        self.evaluations = 0
        self.sigs = set()
        self.counters = {}
        self.samples = []
        self.cases = []     # shown where a check keeps no samples
        self.case_info = None
        self.known = load_known(pid)
        self.known_hit = set()
        self.t0 = time.time()
        self.ticks = 0                    # progress, seen by the watchdog

    # --- budget -----------------------------------------------------------
    def n(self, quick):
        """Number of cases: the quick number, scaled up in thorough runs."""
        return max(1, int(round(quick * self.scale)))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def np_seed(self):
        return self.rng.randrange(2 ** 32)

    # --- observations -----------------------------------------------------
    def begin(self, info):
        """Start a case (kept as the replay information of a violation)."""
        self.case_info = info
        self.evaluations += 1
        if self.evaluations in (1, 50, 200):
            self.cases.append(jsonable(info))
        self.ticks += 1

    def seen(self, sig):
        self.ticks += 1
        if len(self.sigs) < self.MAX_SIGS:
            self.sigs.add(sig_hash(sig))

    def count(self, name, k=1):
        self.ticks += 1
        self.counters[name] = self.counters.get(name, 0) + k

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(jsonable(x))

    def need(self, name, minimum):
        """The monitor must have seen enough, else inconclusive."""
        minimum = max(1, minimum)
        if self.counters.get(name, 0) < minimum:
            raise Inconclusive(
                f'only {self.counters.get(name, 0)} observations of {name}, '
                f'{minimum} needed')

    # --- verdicts ---------------------------------------------------------
    def fail(self, msg, **details):
        raise Violation(msg, details)

    def expect(self, cond, msg, **details):
        self.ticks += 1
        if not cond:
            raise Violation(msg, details)

    def eq(self, got, want, msg, **details):
        self.ticks += 1
        ok = False
        try:
            ok = bool(got == want)
        except Exception:
            ok = False
        if not ok:
            raise Violation(msg, dict(details, got=got, want=want))

    def close(self, got, want, msg, rel=1e-9, abs_=1e-15, **details):
        self.ticks += 1
        if not isclose(got, want, rel, abs_):
            raise Violation(msg, dict(details, got=got, want=want))

    def finding(self, key, msg, **details):
        """A violation that may be listed as a known finding."""
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
            return
        raise Violation(msg, details)


def isclose(got, want, rel=1e-9, abs_=1e-15):
    try:
        got, want = float(got), float(want)
    except Exception:
        return False
    if math.isnan(got) or math.isnan(want):
        return False
    if math.isinf(got) or math.isinf(want):
        return got == want
    return abs(got - want) <= max(abs_, rel * max(abs(got), abs(want)))


def load_known(pid):
    """known-findings.txt: 'known: property=<id> key=<key> <text>' lines."""
    ret = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf8'):
            line = line.strip()
            if line.startswith(f'known: property={pid} key='):
                rest = line.split('key=', 1)[1]
                key, _, text = rest.partition(' ')
                ret[key] = text
    return ret


# --------------------------------------------------------------------------
# Running the code under test
# --------------------------------------------------------------------------
def setup_import():
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import logging
    import pysim
    path = os.path.abspath(pysim.__file__)
    if not path.startswith(os.path.join(REPO, 'pysim')):
        raise Inconclusive(f'pysim was imported from {path}')


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


@contextlib.contextmanager
def quiet():
    """Discard what the models print."""
    with contextlib.redirect_stdout(_Null()), \
            contextlib.redirect_stderr(_Null()):
        yield


def innermost(exc):
    """Whose code raised: 'repo', 'verif' or '' (neither on the stack)."""
    for f in reversed(traceback.extract_tb(exc.__traceback__)):
        fn = os.path.abspath(f.filename)
        if fn.startswith(REPO + os.sep):
            return 'repo'
        if fn.startswith(VERIF + os.sep):
            return 'verif'
    return ''


def classify(exc):
    """'violation' if the exception comes from the code under test."""
    frames = traceback.extract_tb(exc.__traceback__)
    for f in reversed(frames):
        fn = os.path.abspath(f.filename)
        if fn.startswith(REPO + os.sep):
            return 'violation'
        if fn.startswith(VERIF + os.sep):
            if isinstance(exc, AttributeError):
                # a value of the code under test that is None, or one of its
                # objects that lacks a part, is its fault
                obj = getattr(exc, 'obj', 0)
                own = type(obj).__module__.split('.')[0] == 'pysim'
                return 'violation' if obj is None or own else 'harness'
            if isinstance(exc, (ImportError, NameError, MemoryError,
                                OSError)):
                return 'harness'
            # the oracle choked on a value produced by the code under test
            return 'violation'
    return 'harness'


def outcome_of(fn, c):
    """Run a check function; returns (verdict, msg, details)."""
    try:
        fn(c)
        return 'held', '', {}
    except Violation as v:
        return 'violated', v.msg, dict(v.details, case=c.case_info)
    except Inconclusive as e:
        return 'inconclusive', str(e), {'case': c.case_info}
    except RecursionError as e:
        return ('violated', 'recursion error in the code under test',
                {'case': c.case_info})
    except Exception as e:
        tb = traceback.format_exc()
        kind = classify(e)
        if isinstance(e, MemoryError) and any(
                os.path.abspath(f.filename).startswith(REPO + os.sep)
                for f in traceback.extract_tb(e.__traceback__)):
            kind = 'violation'
        details = {'traceback': tb.splitlines()[-30:], 'case': c.case_info}
        if kind == 'violation':
            return ('violated',
                    f'unexpected {type(e).__name__}: {e}', details)
        return 'inconclusive', f'harness error {type(e).__name__}: {e}', details


# --------------------------------------------------------------------------
# Watchdog: code that does not come to an end, memory that runs away
# --------------------------------------------------------------------------
class Watch:
    """Repeating alarm in the main thread.

    The check made no step (``Ctx.ticks``) for ``stall`` seconds of its own
    CPU time, and at every alarm of that period the code under test was on the
    stack: it is looping, which is a violation of every property that says
    what it returns.  The longest stretch without a step on the unchanged tree
    is under 30 s.  When ``limit`` seconds of wall time are over, the run is
    given up (no answer).
    """
    PERIOD = 5.0

    def __init__(self, limit, stall):
        self.limit, self.stall = limit, stall
        self.ctx = None
        self.t0 = time.time()
        self.longest = 0.0
        self._reset(-1)

    def _reset(self, ticks):
        self.ticks, self.cpu = ticks, time.process_time()

    def start(self):
        import signal
        signal.signal(signal.SIGALRM, self.fire)
        signal.setitimer(signal.ITIMER_REAL, self.PERIOD, self.PERIOD)

    def stop(self):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)

    @staticmethod
    def in_repo(frame):
        while frame is not None:
            fn = os.path.abspath(frame.f_code.co_filename)
            if fn.startswith(REPO + os.sep):
                return True
            frame = frame.f_back
        return False

    def fire(self, signum, frame):
        if time.time() - self.t0 > self.limit:
            sys.stdout.write('INCONCLUSIVE: watchdog\n')
            sys.stdout.flush()
            os._exit(2)
        ticks = self.ctx.ticks if self.ctx is not None else -1
        if ticks != self.ticks or not self.in_repo(frame):
            self._reset(ticks)
            return
        spent = time.process_time() - self.cpu
        self.longest = max(self.longest, spent)
        if self.ctx is not None and spent > self.stall:
            where = ''.join(traceback.format_stack(frame)[-8:])
            raise Violation(
                f'the code under test does not come to an end: no step of '
                f'the check in {spent:.0f} s of CPU time',
                {'stack': where.splitlines()})


def limit_memory(gigabytes):
    import resource
    n = int(gigabytes * 2 ** 30)
    resource.setrlimit(resource.RLIMIT_AS, (n, n))
