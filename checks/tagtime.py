"""T01..T05: the tag reading time models."""
import contextlib
import logging
import math
import random

import numpy as np
import scipy.stats as st

from vlib import refstd as R
from vlib.core import check, quiet
import pysim.models.rfid.epcstd as std
import pysim.models.tag_time.analitical_model as an
import pysim.models.tag_time.calculate_params as cp
import pysim.models.tag_time.cli as cli
import pysim.models.tag_time.mc as mc
import pysim.models.tag_time.model as M
from pysim.models.tag_time.objects import Config
from pysim.sim.logger import ModelLoggerConfig
from pysim.sim.simulator import ExitReason


# --------------------------------------------------------------------------
# Recorder
# --------------------------------------------------------------------------
class Run:
    def __init__(self):
        self.visits = []    # (time, code, sub) start of every visit
        self.finals = 0
        self.sim = None
        self.stats = None


@contextlib.contextmanager
def recorder(run):
    timeout = M.State.__dict__['handle_timeout']
    receive = M.State.__dict__['handle_receive']

    def on_timeout(self, sim, *a, **kw):
        run.sim = sim
        run.visits.append((sim.time, self.code,
                           self.secured_number if self.code == 3 else None))
        return timeout(self, sim, *a, **kw)

    def on_receive(self, sim, *a, **kw):
        run.sim = sim
        if self.code == 4:
            run.finals += 1
            run.visits.append((sim.time, 4, None))
        return receive(self, sim, *a, **kw)
    M.State.handle_timeout = on_timeout
    M.State.handle_receive = on_receive
    try:
        yield run
    finally:
        M.State.handle_timeout = timeout
        M.State.handle_receive = receive


def execute(cfg, how='run_model', limits=None, log_level=None):
    run = Run()
    lc = ModelLoggerConfig() if log_level is None else \
        ModelLoggerConfig(level=log_level, use_console=True)
    with quiet(), recorder(run):
        try:
            if how == 'create_config':
                run.stats = cli.create_config(cfg.model_dump())
            else:
                run.stats = cli.run_model(cfg, lc, **(limits or {}))
        finally:
            logging.getLogger(cli.MODEL_NAME).handlers = []
    # the last start in the first state only stops the run
    run.stopped = run.stats.exit_reason == ExitReason.STOPPED
    if run.stopped and run.visits and run.visits[-1][1] == 0:
        run.end = run.visits.pop()
    return run


def random_config(rng, small=False):
    scenario = rng.choice([1, 2, 3, 3])
    lo = 0.35 if scenario == 1 else 0.08
    def prob():
        return rng.choice([1.0, 1.0, 0.5, 0.9, 0.95, lo,
                           rng.uniform(lo, 1), rng.uniform(lo, 1)])
    times = rng.choice([
        (1, 1000, 10 ** 6, 10 ** 9), (1.0, 1.0, 1.0, 1.0),
        (1, 2, 3, 4), (0.0, 0.0, 0.0, 1.0), (1.0, 0.0, 0.0, 0.0),
        (0.1, 0.2, 0.3, 0.7), (1e-3, 2.5e-3, 1.7e-3, 9e-4),
        tuple(rng.expovariate(1) for _ in range(4)),
        tuple(rng.uniform(0, 1e-2) for _ in range(4))])
    return Config(
        probability=tuple(prob() for _ in range(4)), processing_time=times,
        max_transmisions=rng.choice([1, 2, 3, 10, rng.randint(1, 40)]),
        chunks_number=rng.choice([1, 1, 2, 3, 5, 10, rng.randint(1, 30)]),
        scenario=scenario)


def cases(c, n):
    rng = c.rng
    for i in range(n):
        cfg = random_config(rng)
        limits = {}
        if rng.random() < 0.12:
            limits = {'max_num_events': rng.randint(5, 400)}
            if rng.random() < 0.5:
                cfg.max_transmisions = None
            if rng.random() < 0.3:
                p = list(cfg.probability)
                p[rng.randrange(4)] = 0.0
                cfg.probability = tuple(p)
        if i == 15:     # thousands of readings
            limits = {}
            cfg.max_transmisions = 12000
            cfg.probability = (.9, 1.0, .95, .9)
            cfg.chunks_number = 2
        if i in (16, 17):       # a long memory in many pieces
            limits = {}
            cfg.scenario = 3
            cfg.chunks_number = rng.choice([65, 100, 129, 260])
            cfg.max_transmisions = rng.choice([2, 3, 5])
            cfg.probability = (.9, 1.0, .95, .9)
        how = 'run_model' if limits else rng.choice(['run_model',
                                                     'create_config'])
        seed = rng.randrange(2 ** 32)
        random.seed(seed)
        info = dict(config=cfg.model_dump(), seed=seed, limits=limits, how=how)
        c.begin(info)
        run = execute(cfg, how, limits, rng.choice([None, None, None, 10]))
        c.count('visits', len(run.visits))
        c.count('readings', run.finals)
        if i < 3:
            c.sample(dict(info, visits=run.visits[:12]))
        yield cfg, limits, run


def binom_ok(k, n, p, a=5e-10):
    if n == 0:
        return True
    if p <= 0:
        return k == 0
    if p >= 1:
        return k == n
    return min(st.binom.cdf(k, n, p), st.binom.sf(k - 1, n, p)) > a


def successor(cfg, code, sub, success):
    if not success:
        return (0, None) if cfg.scenario == 1 else (code, sub)
    if code < 2:
        return code + 1, None
    if code == 2:
        return 3, 0 if cfg.scenario == 3 else None
    if cfg.scenario == 3 and sub + 1 < cfg.chunks_number:
        return 3, sub + 1
    return 4, None


def trials(c, cfg, run):
    """Walk over the visits, yields (code, sub, success, reading index)."""
    reading = 0
    v = run.visits
    c.expect(bool(v), 'nothing was simulated')
    c.eq(v[0][1:], (0, None), 'a reading starts in the first state')
    for i in range(len(v) - 1):
        (_, code, sub), (_, code2, sub2) = v[i], v[i + 1]
        if cfg.scenario != 3:
            sub = sub2 = None
        if code == 4:
            reading += 1
            c.eq((code2, sub2), (0, None),
                 'a reading starts in the first state', reading=reading)
            continue
        ok = successor(cfg, code, sub, True)
        bad = successor(cfg, code, sub, False)
        c.expect((code2, sub2) in (ok, bad), 'move along no edge of the graph',
                 at=(code, sub), to=(code2, sub2), scenario=cfg.scenario,
                 chunks=cfg.chunks_number, tail=v[max(0, i - 5):i + 2])
        yield code, sub, (code2, sub2) == ok, reading


@check('T01', 'random scenarios, probabilities (incl. 0 and 1), chunk counts, '
              'truncated runs; every move against the state graph, success '
              'frequencies (per state, chunk, reading, history) by exact '
              'binomial tests; distinct = visit sequence')
def t01(c):
    for cfg, limits, run in cases(c, c.n(350)):
        n = 0
        for code, sub, ok, reading in trials(c, cfg, run):
            n += 1
            p = cfg.probability[code]
            c.expect(ok or p < 1, 'failure in a state with probability 1',
                     state=code)
            c.expect(not ok or p > 0, 'success in a state with probability 0',
                     state=code)
        c.count('moves', n)
        if not limits:
            c.eq(run.finals, cfg.max_transmisions, 'completed readings')
            c.expect(run.stopped, 'the run did not end by itself')
            c.eq(run.visits[-1][1], 4, 'the run ends with a completed reading')
            c.count('complete runs')
        elif cfg.max_transmisions is not None:
            c.expect(run.finals <= cfg.max_transmisions, 'too many readings')
        c.seen(tuple(x[1:] for x in run.visits))
    # frequencies
    rng = c.rng
    for _ in range(c.n(12)):
        cfg = random_config(rng)
        cfg.max_transmisions = rng.choice([150, 300])
        cfg.probability = tuple(
            rng.choice([1.0, 0.5, 0.9, rng.uniform(0.3, 0.95)])
            for _ in range(4))
        if cfg.scenario == 1 and np.prod(cfg.probability) < 0.05:
            cfg.probability = (0.6, 0.8, 0.7, 0.9)
        seed = rng.randrange(2 ** 32)
        random.seed(seed)
        c.begin(dict(config=cfg.model_dump(), seed=seed))
        run = execute(cfg)
        c.eq(run.finals, cfg.max_transmisions, 'completed readings')
        strata = {}
        prev = None
        seq = []
        for code, sub, ok, reading in trials(c, cfg, run):
            keys = [(code,), (code, 'sub', sub),
                    (code, 'after', prev), (code, 'reading parity',
                                            reading % 2),
                    (code, 'reading', min(reading, 3)),
                    (code, 'late', reading >= 100),
                    (code, 'seq', tuple(seq[-2:]))]
            if sub is not None:
                keys.append((code, 'last chunk',
                             sub == cfg.chunks_number - 1))
            for k in keys:
                s = strata.setdefault(k, [0, 0])
                s[0] += 1
                s[1] += ok
            prev = ok
            seq.append(ok)
        for k, (n, s) in strata.items():
            c.expect(binom_ok(s, n, cfg.probability[k[0]]),
                     'frequency of success contradicts the probability',
                     stratum=k, trials=n, successes=s,
                     probability=cfg.probability[k[0]])
            c.count('tests')
    c.need('moves', 2000)
    c.need('complete runs', 100)
    c.need('tests', 100)


@check('T02', 'same workload as T01 with incommensurate dwell times; every '
              'dwell and the total against the configured times; distinct = '
              '(times, visit counts)')
def t02(c):
    for cfg, limits, run in cases(c, c.n(350)):
        t = list(cfg.processing_time) + [0]
        v = run.visits + ([run.end] if hasattr(run, 'end') else [])
        total = 0.0
        counts = [0] * 5
        scale = max(abs(run.stats.sim_time), 1e-12)
        tol = 4e-12 * scale
        c.expect(bool(v), 'nothing was simulated')
        c.eq(v[0][0], 0.0, 'the first visit starts at time 0')
        for (a, code, sub), (b, _, _) in zip(v, v[1:]):
            c.expect(abs(b - a - t[code]) <= tol,
                     'a visit does not last the time of its state',
                     state=code, chunk=sub, got=b - a, want=t[code])
            total += t[code]
            counts[code] += 1
            c.count('dwells')
        if run.stopped:
            c.close(run.stats.sim_time,
                    math.fsum(k * x for k, x in zip(counts, t)),
                    'total model time', rel=1e-9, visits=counts)
            c.count('complete runs')
        c.seen((cfg.processing_time, tuple(counts)))
    c.need('dwells', 2000)
    c.need('complete runs', 100)


# --------------------------------------------------------------------------
# Exact chain
# --------------------------------------------------------------------------
def chain(scenario, probs):
    """Transient part of the transition matrix."""
    n = len(probs)
    q = np.zeros((n, n))
    for i, p in enumerate(probs):
        if i + 1 < n:
            q[i, i + 1] += p
        q[i, 0 if scenario == 1 else i] += 1 - p
    return q


def exact_mean(scenario, probs, times):
    """Mean absorption time from closed forms."""
    if scenario == 1:
        num, pre = 0.0, 1.0
        for p, t in zip(probs, times):
            num += t * pre
            pre *= p
        return num / pre
    return math.fsum(t / p if p else math.inf for p, t in zip(probs, times))


def exact_sd(scenario, probs, times):
    if scenario != 1:
        return math.sqrt(math.fsum(t * t * (1 - p) / p / p
                                   for p, t in zip(probs, times)))
    q = chain(scenario, probs)
    n = len(probs)
    t = np.array(times, dtype=float)
    inv = np.linalg.inv(np.eye(n) - q)
    m = inv @ t
    # variance of one step around its expectation: no cancellation
    step = (q * (t[:, None] + m[None, :] - m[:, None]) ** 2).sum(axis=1) + \
        (1 - q.sum(axis=1)) * (t - m) ** 2
    return math.sqrt(max(0.0, (inv @ step)[0]))


def random_sets(rng, k, n, lo):
    probs = [[rng.choice([1.0, 0.5, lo, rng.uniform(lo, 1),
                          rng.uniform(lo, 1)]) for _ in range(n)]
             for _ in range(k)]
    times = [[rng.choice([0.0, 1.0, 1e-3, 1e6, rng.random(),
                          rng.expovariate(100)]) for _ in range(n)]
             for _ in range(k)]
    return probs, times


@check('T03', 'random probability and time sets; analytic values against the '
              'exact chain, discrete-event and Monte-Carlo means within 6.5 '
              'exact standard errors; distinct = (scenario, sets)')
def t03(c):
    rng = c.rng
    # analytic against exact
    for i in range(c.n(1500)):
        scenario = rng.choice([1, 2, 3])
        k = rng.randint(1, 4)
        lo = rng.choice([0.02, 0.1, 0.3])
        probs, times = random_sets(rng, k, 4, lo)
        if scenario > 1 and rng.random() < 0.1:
            # a state that is never left
            probs[-1][rng.randrange(4)] = 0.0
        elif scenario > 1 and rng.random() < 0.1:
            probs[0][rng.randrange(4)] = 10 ** -rng.uniform(1, 12)
        chunks = rng.choice([1, 2, 3, 10, 50])
        c.begin(dict(kind='analytic', scenario=scenario, probs=probs,
                     times=times, chunks=chunks))
        phases = an.convert_data_for_analitica(probs, times)
        c.eq([[tuple(x) for x in ph] for ph in phases],
             [list(zip(p, t)) for p, t in zip(probs, times)],
             'phases given to the analytic model')
        got = an.run_analitica(scenario, phases, chunks)
        c.eq(len(got), k, 'one result per probability set')
        for j in range(k):
            p, t = probs[j], times[j]
            if scenario == 3:
                p = p[:3] + [p[3]] * chunks
                t = t[:3] + [t[3]] * chunks
            want = exact_mean(scenario, p, t) * 1000
            c.close(got[j], want, 'analytic mean reading time',
                    rel=1e-7, abs_=1e-9 * 1000 * max(t + [1e-3]) /
                    (np.prod(p[:4]) if scenario == 1 else 1) * 1e-2,
                    scenario=scenario, probs=p[:4], times=t[:4],
                    chunks=chunks)
            c.count('analytic values')
        c.seen((scenario, repr(probs), repr(times)))
        # direct calls
        ph = list(zip(probs[0], times[0]))
        if min(probs[0]) == 0:
            continue
        if min(probs[0]) >= .02:    # else rounding errors are too large
            c.close(an.calculate_first_case(ph),
                    exact_mean(1, probs[0], times[0]), 'analytic scenario 1',
                    rel=1e-7, abs_=1e-8 * max(times[0] + [1e-3]))
        c.close(an.calculate_second_case(ph),
                exact_mean(2, probs[0], times[0]), 'analytic scenario 2',
                rel=1e-9)
        c.close(an.calculate_third_case(ph[:3], ph[3], chunks),
                exact_mean(2, probs[0][:3] + [probs[0][3]] * chunks,
                           times[0][:3] + [times[0][3]] * chunks),
                'analytic scenario 3', rel=1e-9)
    # Monte Carlo
    for i in range(c.n(40)):
        scenario = rng.choice([1, 2, 3])
        n = 4 if scenario == 1 else rng.choice([4, 4, 5, 8, 13])
        k = rng.randint(1, 3)
        probs, times = random_sets(rng, k, n, 0.45 if scenario == 1 else 0.2)
        if i % 5 == 0:
            probs = [[1.0] * n for _ in range(k)]
        elif i % 5 == 1:        # readings of hundreds of steps
            probs, times = random_sets(rng, 1, n, 0.2)
            if scenario == 1:
                probs = [[.15, .2, .3, .4]]
            else:
                probs[0][rng.randrange(n)] = rng.choice([.002, .005, .02])
            k = 1
        trials_n = rng.choice([300, 600]) if i >= 3 else 4000
        if i == 7:              # a fine probability
            scenario, n, k, trials_n = 2, 3, 1, 1500
            probs, times = [[.0013, .9, .5]], [[1.0, .5, .5]]
        if i in (8, 9, 10):     # many pieces
            scenario, k = rng.choice([2, 3]), 1
            n, trials_n = 3 + (15, 40, 130)[i - 8], 60
            probs, times = random_sets(rng, 1, n, .5)
        if i == 11:             # many readings
            scenario, n, k, trials_n = 2, 3, 1, 120000
            probs, times = [[.5, 1.0, .9]], [[1.0, 0.0, .5]]
        seed = rng.randrange(2 ** 32)
        np.random.seed(seed)
        c.begin(dict(kind='monte carlo', scenario=scenario, probs=probs,
                     times=times, n=trials_n, seed=seed))
        got = mc.run_multiple_models(scenario, probs, times, trials_n)
        c.eq(len(got), k, 'one result per probability set')
        for j in range(k):
            mean = exact_mean(scenario, probs[j], times[j])
            se = exact_sd(scenario, probs[j], times[j]) / math.sqrt(trials_n)
            c.expect(abs(got[j] / 1000 - mean) <= 6.5 * se + 1e-9 * mean +
                     1e-15,
                     'Monte-Carlo mean is not the mean absorption time',
                     got=got[j] / 1000, want=mean, standard_error=se,
                     scenario=scenario, probs=probs[j], times=times[j])
            c.count('monte carlo means')
        c.seen(('mc', scenario, repr(probs)))
    # discrete events
    for i in range(c.n(60)):
        cfg = random_config(rng)
        lo = 0.45 if cfg.scenario == 1 else 0.2
        cfg.probability = tuple(max(lo, p) for p in cfg.probability)
        cfg.max_transmisions = rng.choice([150, 300])
        if i < 3:
            cfg.scenario = i + 1
            cfg.chunks_number = min(cfg.chunks_number, 4)
            cfg.probability = tuple(max(0.45, p) for p in cfg.probability)
            cfg.max_transmisions = 2500
        elif i % 12 == 3:       # readings of hundreds of steps
            pr = [max(.5, x) for x in cfg.probability]
            if cfg.scenario == 1:
                pr = [.25, .3, .4, .4]
            else:
                pr[rng.randrange(3)] = rng.choice([.005, .02])
            cfg.probability = tuple(pr)
        seed = rng.randrange(2 ** 32)
        random.seed(seed)
        c.begin(dict(kind='events', config=cfg.model_dump(), seed=seed))
        with quiet():
            stats = cli.run_model(cfg, ModelLoggerConfig())
        p, t = list(cfg.probability), list(cfg.processing_time)
        if cfg.scenario == 3:
            p = p[:3] + [p[3]] * cfg.chunks_number
            t = t[:3] + [t[3]] * cfg.chunks_number
        n = cfg.max_transmisions
        mean = exact_mean(cfg.scenario, p, t)
        se = exact_sd(cfg.scenario, p, t) / math.sqrt(n)
        got = stats.sim_time / n
        c.expect(abs(got - mean) <= 6.5 * se + 1e-9 * mean + 1e-15,
                 'mean time of the simulation is not the mean absorption time',
                 got=got, want=mean, standard_error=se)
        c.count('simulated means')
        c.seen(('des', cfg.model_dump_json()))
    c.need('analytic values', 500)
    c.need('monte carlo means', 20)
    c.need('simulated means', 20)


@check('T04', 'random and boundary probability lists of 1..40 states; whole '
              'matrices against the running sums of the reference chain; '
              'distinct = probability list')
def t04(c):
    rng = c.rng
    for i in range(c.n(4000)):
        scenario = rng.choice([1, 2, 3])
        k = rng.choice([1, 1, 2, 5])
        n = rng.choice([1, 2, 3, 4, 4, 4, 5, 10, rng.randint(1, 40)])
        probs = [[rng.choice([0.0, 1.0, 0.5, 1e-12, 1 - 1e-12, 0.1,
                              rng.random(), rng.random()])
                  for _ in range(n)] for _ in range(k)]
        if rng.random() < 0.1:
            probs = [tuple(x) for x in probs]
        if rng.random() < 0.1:
            probs = [np.array(x) for x in probs]
        c.begin(dict(scenario=scenario, probs=[list(x) for x in probs]))
        ms = mc.create_input_probs(scenario, probs)
        c.eq(len(ms), k, 'one matrix per probability set')
        fn = [None, mc.create_matrix_1, mc.create_matrix_2,
              mc.create_matrix_3][scenario]
        direct = fn(probs[0]) if scenario == 3 else fn(*probs[0])
        for p, m in list(zip(probs, ms)) + [(probs[0], direct)]:
            m = np.array(m)
            c.eq(m.shape, (n + 1, n + 1), 'shape of the matrix')
            full = np.zeros((n + 1, n + 1))
            full[:n, :n] = chain(scenario, p)
            full[n - 1, n] += p[n - 1]
            full[n, n] = 1
            want = np.cumsum(full, axis=1)
            c.expect(np.allclose(m, want, rtol=0, atol=1e-12),
                     'cumulative transition matrix', scenario=scenario,
                     probs=list(p), got=m.tolist(), want=want.tolist())
            c.expect(bool(np.all(np.diff(m, axis=1) >= -1e-15)),
                     'row not monotone')
            c.expect(bool(np.all(m >= -1e-15) and np.all(m <= 1 + 1e-12)),
                     'value outside 0..1')
            c.count('matrices')
        c.seen((scenario, repr([list(x) for x in probs])))
        if i < 3:
            c.sample(dict(scenario=scenario, probs=list(probs[0]),
                          matrix=direct.tolist()))
    c.need('matrices', 1000)


DRS = {'8': std.DivideRatio.DR_8, '64/3': std.DivideRatio.DR_643}
MS = {1: std.TagEncoding.FM0, 2: std.TagEncoding.M2, 4: std.TagEncoding.M4,
      8: std.TagEncoding.M8}


def near_edge(trcal):
    return any(abs(trcal * 1e6 - e) < 1e-3 for e in R.FRT_EDGES)


def t05_params(rng):
    while True:
        tari = rng.choice([6.25, 12.5, 25.0, 10.0, 18.75,
                           rng.uniform(6.25, 25)])
        if not near_edge(1.95 * 2.75 * tari * 1e-6):
            break
    return tari, rng.choice(['8', '64/3']), rng.choice([1, 2, 4, 8]), \
        rng.random() < 0.5


@check('T05', 'all encodings, divide ratios, Tari 6.25..25, 1..12 chunks, '
              '1..300 words, BER 0..0.5; every entry of the parameter table, '
              'probabilities and times against the Gen2 reference; distinct = '
              '(parameters, chunks, words)')
def t05(c):
    rng = c.rng
    for i in range(c.n(1200)):
        tari, dr, m, trext = t05_params(rng)
        chunks = rng.choice([1, 1, 2, 3, 4, 7, rng.randint(1, 12)])
        words = rng.choice([1, 2, 3, 4, 8, 16, 64, 255,
                            rng.randint(1, 300)])
        if i % 60 == 7:
            words = rng.choice([1023, 2048, 4000])
        if i % 60 == 9:
            chunks = rng.choice([20, 40, 65])
        words = max(words, chunks)
        c.begin(dict(tari=tari, dr=dr, m=m, trext=trext, chunks=chunks,
                     words=words))
        few = rng.randint(1, chunks)      # maybe fewer words than chunks
        per, last = cp.calculate_chunks(few, chunks)
        c.eq(per if chunks == 1 else per * (chunks - 1) + last, few,
             'chunks preserve the number of words', per=per, last=last,
             few=few)
        per, last = cp.calculate_chunks(words, chunks)
        if chunks == 1:
            c.eq((per, last), (words, 0), 'a single chunk holds all words')
            sizes = [words]
        else:
            c.eq(per * (chunks - 1) + last, words,
                 'chunks preserve the number of words', per=per, last=last)
            c.expect(per >= 1 and last >= 1, 'empty chunk', per=per, last=last)
            sizes = [per] * (chunks - 1) + [last]
        tab = cp.build_messages_df(tari, MS[m], DRS[dr], trext, chunks, per,
                                   last)
        ta = tari * 1e-6
        rt = 2.75 * ta
        tr = 1.95 * rt
        lens = [R.reply_bits('rn16'), R.reply_bits('epc', 12),
                R.reply_bits('handle')] + \
            [R.reply_bits('data', 2 * w) for w in sizes]
        over = R.preamble_bits(m, trext) + 1
        durs = [R.tag_frame(b, dr, tr, m, trext) for b in lens]
        cmds = [R.query(dr, m, trext, 'ALL', 0, 'A', 4, 0x15),
                R.ack(0x5555), R.req_rn(0x5555, 0x5555),
                R.read(2, 0, 4, 0x5555, 0x5555)]
        cdur = [R.reader_frame(s, ta, rt, tr) for s in cmds]
        want = {'Tari': tari, 'RTcal': rt, 'TRcal': tr,
                'BLF': R.blf(dr, tr), 'Query': cdur[0], 'Ack': cdur[1],
                'Req_RN': cdur[2], 'Read': cdur[3],
                'QueryRep': R.reader_frame(R.query_rep(0), ta, rt, tr),
                'RN16': durs[0], 'EPC+PC+CRC': durs[1], 'Handle': durs[2],
                'RN16_len': lens[0] + over, 'EPC+PC+CRC_len': lens[1] + over,
                'Handle_len': lens[2] + over, 'rtcal': rt, 'trcal': tr}
        for k, w in want.items():
            c.close(tab[k], w, f'table entry {k}')
            c.count('table entries')
        c.eq(tab['DR'], DRS[dr], 'table entry DR')
        c.eq(tab['M'], MS[m], 'table entry M')
        c.eq(bool(tab['TRext']), trext, 'table entry TRext')
        c.eq(len(tab['Data']), chunks, 'one data reply per chunk')
        for a, b, x, y in zip(tab['Data'], durs[3:], tab['Data_len'],
                              lens[3:]):
            c.close(a, b, 'duration of a data reply')
            c.eq(x, y + over, 'bits of a data reply')
        # probabilities
        pts = rng.randint(1, 6) if i % 60 != 11 else rng.choice([101, 260])
        ber = np.array([rng.choice([0.0, 0.5, 1e-6, 1e-4, 1e-3, 0.01,
                                    rng.random() * 0.5, 10 ** rng.uniform(
                                        -9, -0.4)]) for _ in range(pts)])
        probs = cp.prepare_probs(tab, chunks, ber, pts)
        c.eq(len(probs), pts, 'one probability set per point')
        for j in range(pts):
            c.eq(len(probs[j]), 3 + chunks, 'one probability per state')
            for s, (p, b) in enumerate(zip(probs[j], lens)):
                w = math.exp((b + over) * math.log1p(-ber[j]))
                c.close(p, w, 'success probability of a state', rel=1e-9,
                        abs_=1e-300, ber=ber[j], state=s, bits=b + over)
                c.count('probabilities')
        # times
        times = cp.prepare_times(tab, probs, chunks)
        c.eq(len(times), pts, 'one time set per point')
        t12 = R.t_max(1, rt, tr, dr) + R.t_max(2, rt, tr, dr)
        wt = [t12 + cdur[min(s, 3)] + durs[s] + 2e-5
              for s in range(3 + chunks)]
        for row in times:
            c.eq(len(row), 3 + chunks, 'one time per state')
            for s, (a, b) in enumerate(zip(row, wt)):
                c.close(a, b, 'time of a state', state=s)
                c.count('times')
        # longer data is neither faster nor more probable
        tab2 = cp.build_messages_df(
            tari, MS[m], DRS[dr], trext, chunks,
            *cp.calculate_chunks(words + 1, chunks))
        pr2 = cp.prepare_probs(tab2, chunks, ber, pts)
        ti2 = cp.prepare_times(tab2, pr2, chunks)
        for j in range(pts):
            c.expect(sum(ti2[j]) > sum(times[j]),
                     'more words are read faster')
            c.expect(np.prod(pr2[j]) <= np.prod(probs[j]) * (1 + 1e-12),
                     'more words are read with higher probability')
        d = cp.create_dicts(probs, times, chunks, 3, 17)
        c.eq((d['probability'], d['processing_time'], d['chunks_number'],
              d['scenario'], d['max_transmisions']),
             (probs, times, chunks, 3, 17), 'inputs handed to the models')
        c.seen((round(tari, 3), dr, m, trext, chunks, words))
        if i < 2:
            c.sample(dict(params=(tari, dr, m, trext, chunks, words),
                          probs=list(probs[0]), times=list(times[0])))
    c.need('times', 1000)
    c.need('probabilities', 1000)
