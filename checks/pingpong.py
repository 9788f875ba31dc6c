"""P01..P03: the ping-pong model.

Class-level recorders on the documented interface (Channel.send and
Node.handle_receive) log every departure and arrival; the oracles work on the
log and on the returned Result.
"""
import contextlib
import logging
import random

import scipy.stats as st

from vlib.core import check, quiet
import pysim.models.pingpong.cli as cli
import pysim.models.pingpong.handlers as H
import pysim.models.pingpong.model as M
import pysim.sim.simulator as S
from pysim.models.pingpong.objects import Config
from pysim.sim.logger import ModelLoggerConfig


class Run:
    """Log of one run."""

    def __init__(self):
        self.log = []       # (time, kind, number) in order of execution
        self.sim = None
        self.client = None
        self.result = None
        self.stats = None


@contextlib.contextmanager
def recorder(run):
    def wrap(cls, name, kind):
        own = name in cls.__dict__
        orig = getattr(cls, name)

        def wrapped(self, sim, packet, *a, **kw):
            run.sim = sim
            who = 'client' if isinstance(packet.sender, M.Client) else 'server'
            to = 'client' if isinstance(packet.receiver, M.Client) else 'server'
            if who == 'client':
                run.client = packet.sender
            run.log.append((sim.time, kind, who, to, packet.number))
            return orig(self, sim, packet, *a, **kw)
        setattr(cls, name, wrapped)
        return lambda: (setattr(cls, name, orig) if own
                        else delattr(cls, name))
    undo = [wrap(M.Channel, 'send', 'send'),
            wrap(M.Client, 'handle_receive', 'client'),
            wrap(M.Server, 'handle_receive', 'server')]
    try:
        yield run
    finally:
        for u in undo:
            u()


def execute(cfg, how='run_model', limits=None, log_level=None, first=None):
    run = Run()

    def init(sim, config):
        H.initialize(sim, config)
        if first is not None:       # the first number leaves next
            sim.context.client.number = first - 1
    lc = ModelLoggerConfig() if log_level is None else \
        ModelLoggerConfig(level=log_level, use_console=True)
    with quiet(), recorder(run):
        try:
            if how == 'run_model':
                run.result = cli.run_model(cfg, lc, **(limits or {}))
            elif how == 'create_config':
                run.result = cli.create_config(cfg.model_dump())
            else:
                run.stats, _, run.result = S.run_simulation(
                    S.build_simulation('PP', init=init,
                                       init_args=(cfg,), fin=H.finalize,
                                       logger_config=lc, **(limits or {})))
        finally:
            for n in ('PP', cli.MODEL_NAME):
                logging.getLogger(n).handlers = []
    return run


SPECIAL = []


def special_seeds():
    """Seeds whose first packet number lies near a boundary."""
    if not SPECIAL:
        bounds = [0, 256, 32768, 65536, 99_999, 131072, 262144, 524288,
                  999_999, 1_000_000]
        for s in range(8000):
            v = random.Random(s).randint(a=0, b=1_000_000)
            if any(-120 < v - b <= 2 for b in bounds):
                SPECIAL.append(s)
    return SPECIAL


def random_config(rng, max_pings=None):
    def dur():
        return rng.choice([0.0, 1.0, 2.0, 10.0, 0.1, 0.3, 1e-6, 1e3,
                           rng.random() * 10, float(rng.randint(0, 50)),
                           rng.expovariate(1)])
    p = rng.choice([0.0, 0.0, 1.0, 0.1, 0.5, 0.9, 0.01, 0.99, rng.random()])
    return Config(
        interval=dur(), channel_delay=dur(), service_delay=dur(), loss_prob=p,
        max_pings=max_pings or rng.choice(
            [1, 1, 2, 3, 5, 10, rng.randint(1, 60), rng.randint(60, 300)]))


def cases(c, n):
    rng = c.rng
    for i in range(n):
        cfg = random_config(rng)
        seed = rng.choice(special_seeds()) if i % 4 == 0 else \
            rng.randrange(2 ** 32)
        if i % 40 == 7:
            cfg.max_pings = rng.choice([1024, 1500, 2100])
        if i == 15:
            cfg.max_pings = 34000
        limits = {}
        if i != 15 and rng.random() < 0.15:
            # long enough for at least one completed ping
            one = 2 * cfg.channel_delay + cfg.service_delay + cfg.interval
            limits = rng.choice([
                {'max_sim_time': max(one, 1e-9) * rng.uniform(1.5, 40)},
                {'max_num_events': rng.randint(12, 400)}])
            if rng.random() < 0.5 and 0 < one:
                cfg.max_pings = None if 'max_num_events' in limits or (
                    cfg.interval > 0 and
                    limits['max_sim_time'] / cfg.interval < 500) \
                    else cfg.max_pings
        how = rng.choice(['run_model', 'run_model', 'direct', 'create_config'])
        if limits and how == 'create_config':
            how = 'run_model'
        first = None
        if how == 'direct' and rng.random() < .5:
            first = rng.choice([2 ** 16, 2 ** 20, 2 ** 24, 2 ** 31, 2 ** 32,
                                2 ** 53, 10 ** 6, 10 ** 7]) - rng.choice(
                                    [0, 1, 2, 5, 20])
            c.count('first numbers')
        info = dict(config=cfg.model_dump(), seed=seed, limits=limits,
                    how=how, first=first)
        c.begin(info)
        random.seed(seed)
        run = execute(cfg, how, limits,
                      rng.choice([None, None, None, 10, 50]), first)
        if i < 3:
            c.sample(dict(info, log=run.log[:12], events=len(run.log)))
        c.count('pings', sum(1 for e in run.log
                             if e[1] == 'send' and e[2] == 'client'))
        c.count('pongs', sum(1 for e in run.log
                             if e[1] == 'send' and e[2] == 'server'))
        yield cfg, limits, run


def outline(c, run):
    """Outcome of every ping: list of dicts in order of departure."""
    pings = []
    by = {}
    for t, kind, who, to, num in run.log:
        if kind == 'send' and who == 'client':
            p = dict(num=num, sent=t, at_server=None, pong=None, back=None)
            pings.append(p)
            by[num] = p
        elif kind == 'server' and num in by:
            by[num]['at_server'] = t
        elif kind == 'send' and who == 'server' and num in by:
            by[num]['pong'] = t
        elif kind == 'client' and num in by:
            by[num]['back'] = t
    return pings


def conservation(c, cfg, limits, run):
    log = run.log
    sent, at_server, ponged, back = [], {}, {}, {}
    outstanding = None
    known = set()
    for i, (t, kind, who, to, num) in enumerate(log):
        w = dict(entry=log[max(0, i - 6):i + 1])
        if kind == 'send' and who == 'client':
            c.expect(to == 'server', 'a ping is not addressed to the server',
                     **w)
            if sent:
                c.eq(num, sent[-1] + 1, 'ping numbers grow by one', **w)
                k = sent[-1]
                c.expect(k in at_server,
                         'next ping left before the previous one arrived', **w)
                c.expect(k not in ponged or k in back,
                         'next ping left before the pong arrived', **w)
            sent.append(num)
            known.add(num)
            outstanding = num
        elif kind == 'server':
            c.expect(who == 'client' and num in known,
                     'the server received an unknown packet', **w)
            c.expect(num not in at_server, 'a ping arrived twice', **w)
            at_server[num] = t
        elif kind == 'send':
            c.expect(to == 'client', 'a pong is not addressed to the client',
                     **w)
            c.eq(num, outstanding, 'pong carries the number of its ping', **w)
            c.expect(num in at_server, 'pong before the ping arrived', **w)
            c.expect(num not in ponged, 'a ping was answered twice', **w)
            ponged[num] = t
        else:
            c.expect(who == 'server' and num in ponged,
                     'the client received an unknown packet', **w)
            c.eq(num, outstanding, 'a pong arrived after the next ping left',
                 **w)
            c.expect(num not in back, 'a pong arrived twice', **w)
            back[num] = t
    c.expect(sent, 'no ping was sent at all')
    cl = run.client
    # a truncated run may end between counting a ping and its departure
    slack = 1 if limits else 0
    c.expect(0 <= cl.num_pings_sent - len(sent) <= slack, 'counted pings',
             got=cl.num_pings_sent, want=len(sent))
    c.eq(cl.num_acknowledged, len(back), 'counted acknowledgements')
    c.eq(cl.num_bad_pongs, 0, 'unexpected pongs')
    if not limits:
        c.eq(len(sent), cfg.max_pings, 'configured number of pings')
        c.eq(len(at_server), len(sent), 'every ping arrived')
        c.eq(len(back), len(ponged), 'every pong arrived')
        c.eq(cl.num_missed, len(sent) - len(back), 'counted missed pings')
        if cfg.loss_prob == 0:
            c.eq(len(back), len(sent), 'no loss with probability 0')
        if cfg.loss_prob == 1:
            c.eq(len(back), 0, 'no pong with loss probability 1')
        c.count('complete runs')
    else:
        if cfg.max_pings is not None:
            c.expect(len(sent) <= cfg.max_pings, 'too many pings')
        c.expect(0 <= cl.num_pings_sent - cl.num_missed - len(back) <= 1,
                 'more than one ping is unaccounted for',
                 sent=len(sent), missed=cl.num_missed, back=len(back))
        c.count('truncated runs')
    c.seen((cfg.max_pings, len(back), cfg.loss_prob))


def stray_pongs(c, run):
    """Pongs that answer no outstanding ping reach the client after the
    run: they are counted as unexpected and acknowledge nothing."""
    rng = c.rng

    class Idle:
        logger = run.sim.logger
        time = run.sim.time
        schedule = call = staticmethod(lambda *a, **kw: None)
    cl = run.client
    for k in range(3):
        before = (cl.num_acknowledged, cl.num_missed, cl.num_pings_sent,
                  cl.was_acknowledged, cl.number)
        bad = cl.num_bad_pongs
        number = cl.number + rng.choice([-1, 1, -2, 10, -10 ** 6, 2 ** 32])
        cl.handle_receive(Idle, M.Packet(sender=cl.server, receiver=cl,
                                         number=number))
        c.eq((cl.num_acknowledged, cl.num_missed, cl.num_pings_sent,
              cl.was_acknowledged, cl.number), before,
             'a stray pong is taken for an answer', number=number)
        c.eq(cl.num_bad_pongs, bad + 1, 'unexpected pongs', number=number)
        c.count('stray pongs')


@check('P01', 'random configurations (zero and extreme delays, loss 0..1, 1 to '
              '2100 pings, truncated runs, start numbers at boundaries); '
              'distinct = (pings, answered, loss probability)')
def p01(c):
    for cfg, limits, run in cases(c, c.n(450)):
        conservation(c, cfg, limits, run)
        stray_pongs(c, run)
    c.need('stray pongs', 500)
    c.need('pings', 2000)
    c.need('pongs', 500)
    c.need('complete runs', 100)


@check('P02', 'same workload as P01; departures, arrivals, final time and '
              'Result against closed formulas; distinct = configuration')
def p02(c):
    for cfg, limits, run in cases(c, c.n(450)):
        pings = outline(c, run)
        ch, sv, iv = cfg.channel_delay, cfg.service_delay, cfg.interval
        scale = max(1e-12, abs(run.sim.time))
        tol = 1e-11 * scale + 1e-15

        def near(a, b, what, **kw):
            if not abs(a - b) <= tol + 1e-9 * abs(b) * 0:
                c.fail(what, got=a, want=b, **kw)
        lost = answered = 0
        for i, p in enumerate(pings):
            if i == 0:
                near(p['sent'], 0.0, 'first ping leaves at time 0')
            else:
                q = pings[i - 1]
                want = q['sent'] + (
                    ch + iv if q['pong'] is None else 2 * ch + sv + iv)
                near(p['sent'], want, 'departure of the next ping', ping=q)
            if p['at_server'] is not None:
                near(p['at_server'], p['sent'] + ch, 'arrival at the server',
                     ping=p)
            if p['pong'] is not None:
                near(p['pong'], p['at_server'] + sv, 'departure of the pong',
                     ping=p)
                if p['back'] is not None:
                    near(p['back'], p['pong'] + ch, 'arrival of the pong',
                         ping=p)
            if p['back'] is None:
                lost += 1
            else:
                answered += 1
        n = len(pings)
        c.expect(n > 0, 'no ping was sent at all')
        if not limits:
            total = lost * (ch + iv) + answered * (2 * ch + sv + iv)
            c.close(run.sim.time, total, 'total model time', rel=1e-9,
                    lost=lost, answered=answered)
            c.count('complete runs')
        r = run.result
        c.expect(r is not None, 'no result')
        c.close(r.avg_interval, iv, 'reported average interval')
        c.close(r.avg_delay, ch, 'reported average transmission delay')
        late = 1 if limits and run.client.num_pings_sent == n + 1 else 0
        c.close(r.miss_rate, (lost + late) / (n + late),
                'reported miss rate', rel=1e-12, lost=lost, sent=n)
        c.count('mixed runs' if lost and answered else 'uniform runs')
        c.seen((ch, sv, iv, cfg.loss_prob, cfg.max_pings))
    c.need('mixed runs', 50)
    c.need('complete runs', 100)


def binom_ok(k, n, p):
    """Two-sided exact test, rejects with probability below 1e-9."""
    if n == 0:
        return True
    if p <= 0:
        return k == 0
    if p >= 1:
        return k == n
    lo = st.binom.cdf(k, n, p)
    hi = st.binom.sf(k - 1, n, p)
    return min(lo, hi) > 5e-10


CLOSE = []


def close_seeds():
    """Groups of seeds whose first packet numbers lie close together."""
    if not CLOSE:
        first = sorted((random.Random(s).randint(a=0, b=1_000_000), s)
                       for s in range(8000))
        for i in range(0, len(first) - 6, 6):
            if first[i + 5][0] - first[i][0] < 350:
                CLOSE.append([s for _, s in first[i:i + 6]])
    return CLOSE


def agreement(c, rng, p):
    """Two runs lose their pings independently, also pings with the same
    number or with the same position."""
    same = dict(number=[0, 0], position=[0, 0])
    for _ in range(c.n(3)):
        cfg = Config(interval=rng.choice([0.0, 1.0, 3.3]), loss_prob=p,
                     channel_delay=rng.choice([0.0, 2.0]),
                     service_delay=rng.choice([0.0, 1.0]), max_pings=400)
        seeds = rng.choice(close_seeds())
        c.begin(dict(config=cfg.model_dump(), seeds=seeds))
        byno, bypos = {}, {}
        for seed in seeds:
            random.seed(seed)
            lost, num = run_pattern(cfg)
            c.count('pings', len(lost))
            c.count('lost', sum(lost))
            for i, x in enumerate(lost):
                bypos.setdefault(i, []).append(x)
                byno.setdefault(num + i, []).append(x)
        for kind, seen in (('number', byno), ('position', bypos)):
            for xs in seen.values():
                for a, b in zip(xs[::2], xs[1::2]):
                    same[kind][0] += 1
                    same[kind][1] += a == b
    for kind, (n, k) in same.items():
        c.count(f'pairs of pings with the same {kind}', n)
        c.expect(not n or binom_ok(k, n, p * p + (1 - p) * (1 - p)),
                 f'the {kind} of a ping decides whether it is lost',
                 pairs=n, agree=k, probability=p)
    random.seed(rng.randrange(2 ** 40))


def run_pattern(cfg):
    run = execute(cfg)
    num = None
    lost = []
    pongs = {e[4] for e in run.log if e[1] == 'client'}
    for e in run.log:
        if e[1] == 'send' and e[2] == 'client':
            lost.append(0 if e[4] in pongs else 1)
            num = e[4] if num is None else num
    return lost, num


@check('P03', 'pooled loss sequences per loss probability: counts, lag 1..3 '
              'pairs, after every length of run, every pattern of five and '
              'every order of magnitude of losses and answers, residues of position and number, begin and end of the '
              'runs, two successive runs; exact binomial tests at 1e-9; '
              'distinct = loss sequence')
def p03(c):
    rng = c.rng
    probs = [0.0, 1.0, 0.5, 0.1, 0.9, 0.02, 0.98, 0.3, 0.7] + \
        [0.8, 0.95, .004, .996] + [round(rng.random(), 4) for _ in range(3)]
    for p in probs:
        strata = {}

        def add(key, x):
            s = strata.setdefault(key, [0, 0])
            s[0] += 1
            s[1] += x
        prev = None
        for j in range(c.n(14)):
            n = rng.choice([400, 200, 50, 20]) if j else 16000
            cfg = Config(interval=rng.choice([0.0, 1.0, 10.0, 3.3]),
                         channel_delay=rng.choice([0.0, 2.0, 0.5]),
                         service_delay=rng.choice([0.0, 1.0, 7.0]),
                         loss_prob=p, max_pings=n)
            if j % 3 == 0:
                random.seed(rng.randrange(2 ** 40))
            c.begin(dict(config=cfg.model_dump(), j=j))
            lost, num = run_pattern(cfg)
            c.eq(len(lost), n, 'number of pings')
            c.seen(tuple(lost))
            c.count('pings', n)
            c.count('lost', sum(lost))
            if 0.2 < p < 0.8:
                c.expect(prev is None or len(prev) < 50 or len(lost) < 50 or
                         lost[:50] != prev[:50],
                         'two successive runs lose the same pings')
                prev = lost
            run, total = 0, [0, 0]      # how history goes on
            for i, x in enumerate(lost):
                add('all', x)
                if run:
                    add(f'after {min(run, 24)} of {lost[i - 1]}', x)
                run = run + 1 if i and x == lost[i - 1] else 1
                for y in (0, 1):
                    add(f'after 2^{total[y].bit_length()} of {y} in all', x)
                total[x] += 1
                if i >= 5:
                    add(('after', *lost[i - 5:i]), x)
                if i < 5:
                    add(f'start {i}', x)
                if i >= n - 3:
                    add(f'end {n - i}', x)
                for lag in (1, 2, 3):
                    if i >= lag:
                        add(f'lag {lag} after {lost[i - lag]}', x)
                if i >= 2:
                    add(f'after {lost[i - 2]}{lost[i - 1]}', x)
                for m in (2, 3, 4, 10):
                    add(f'pos mod {m} = {i % m}', x)
                    add(f'num mod {m} = {(num + i) % m}', x)
                if i >= 256:
                    add('late', x)
                if i >= 1000:
                    add('very late', x)
                add(f'interval {cfg.interval}', x)
                add(f'service {cfg.service_delay}', x)
                add(f'channel {cfg.channel_delay}', x)
        for key, (n, k) in strata.items():
            c.expect(binom_ok(k, n, p),
                     'frequency of lost pings contradicts the probability',
                     stratum=key, pings=n, lost=k, probability=p)
            c.count('tests')
        if 0 < p < 1:
            agreement(c, rng, p)
        c.sample(dict(p=p, all=strata['all'], after_loss=strata.get(
            'lag 1 after 1')))
    c.need('pings', 5000)
    c.need('lost', 500)
