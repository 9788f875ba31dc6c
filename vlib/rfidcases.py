"""Workloads for the RFID run checks."""
import random

import numpy as np

from vlib import rfidrec as X


def friendly(rng):
    """Settings under which tags are powered and mostly understood."""
    x = rng.choice([5.0, 3.0, 2.0, rng.uniform(1, 6)])
    return dict(sensitivity=rng.choice([-60.0, -45.0, -30.0]),
                noise=rng.choice([-110.0, -100.0, -130.0]),
                dist=rng.choice([0.0, .5, 1.0, rng.uniform(0, 2)]),
                reader_x=x, tag_x=x + rng.choice([0.0, .3, -.2]),
                reader_dir=(0, 0, -1), tag_dir=(0, 0, 1), tag_z=0.0,
                reader_z=rng.choice([5.0, 2.0, 3.0]),
                power=rng.choice([31.5, 35.0, 29.0]),
                sel=rng.choice(['ALL', 'ALL', 'ALL', '~SL']),
                target=rng.choice('AAAB'))


def crowded(rng):
    """Many tags at once and small Q: collisions."""
    n = rng.choice([4, 8, 12, 20, 40])
    return dict(friendly(rng), num_tags=n, gap=rng.choice([0.0, .001, .005]),
                life=rng.choice([.2, .5, 1.0]), q=rng.choice([0, 1, 2, 3, 4]))


def ties(rng):
    """All times of the model are multiples of one number."""
    u = rng.choice([.01, .005, .02, 1 / 64])
    n = rng.choice([2, 4, 8])
    return dict(friendly(rng), update=u, on=u * rng.choice([1, 2, 5]),
                off=u * rng.choice([1, 2]), switch_power=True, gap=u,
                gaps=[u * rng.choice([0, 1, 1, 2]) for _ in range(n + 2)],
                num_tags=n, life=u * rng.choice([1, 2, 5, 8]), speed=1.0)


def flicker(rng):
    """The reader is switched on for little more than a few commands."""
    return dict(friendly(rng), switch_power=True, on=rng.choice(
        [1e-4, 5e-4, 1e-3, 2e-3, rng.uniform(1e-4, 8e-3)]),
        off=rng.choice([1e-4, 1e-3, rng.uniform(1e-5, .02), 1e-6]),
        life=rng.choice([.05, .1]), gap=rng.choice([.001, .01, .02]))


def fading(rng):
    """Receive probabilities well inside (0, 1)."""
    return dict(friendly(rng), noise=rng.uniform(-75, -50),
                distr=rng.choice(['rayleigh', 'awgn', 'rayleigh']),
                epc_bitlen=rng.choice([32, 96]), words=rng.choice([1, 2, 6]),
                q=rng.choice([0, 1, 2]), num_tags=rng.choice([1, 2, 3]),
                gap=.1, life=.4, strategy='switch')


def antennas(rng):
    return dict(friendly(rng), antennas=rng.choice([2, 3, 4]),
                antenna_switch=rng.choice([.01, .003, .05, .1]))


def shortlived(rng):
    """Tags leave in the middle of exchanges."""
    n = rng.choice([8, 16, 30])
    return dict(friendly(rng), num_tags=n, gap=rng.choice([.001, .003]),
                life=rng.choice([.002, .004, .008, rng.uniform(.001, .02)]),
                q=rng.choice([0, 1, 2]))


def adaptive(rng):
    n = rng.choice([1, 2, 6, 12, 25])
    return dict(friendly(rng), adjust=True, num_tags=n, gap=rng.choice(
        [0.0, .002, .02]), life=rng.choice([.3, .6]),
        q=rng.choice([0, 1, 2, 3, 4, 6]), session=rng.choice([0, 0, 1, 2]))


def persistent(rng):
    """Session flags matter: const target, short power cycles."""
    return dict(friendly(rng), session=rng.choice([1, 2, 3]),
                strategy=rng.choice(['const', 'switch']),
                s1=rng.choice([.0, .004, .02, .05]),
                s2=rng.choice([.0, .004, .02, .05]),
                s3=rng.choice([.0, .004, .02, .05]),
                on=rng.choice([.02, .05]), off=rng.choice([.003, .01, .03]),
                switch_power=True, life=.4)


def deaf(rng):
    """The first query finds the tag, few replies come through."""
    return dict(friendly(rng), noise=rng.uniform(-50, -20))


def dying(rng):
    """Long replies of tags that drive into and out of the field: they gain
    and lose their power while they answer."""
    f = dict(friendly(rng), m=8, dr='8', trmul=3.0, tari=rng.choice(
        [12.5e-6, 25e-6]), read_tid=True, words=rng.choice([60, 120]),
        epc_bitlen=rng.choice([256, 496]), trext=True, noise=-130.0,
        update=rng.choice([.001, .003, .01]), speed=rng.choice(
            [8.333, 16.0, 30.0]), dist=rng.choice([0.0, 1.0, 3.0]),
        life=rng.choice([.1, .3]), switch_power=rng.random() < .3,
        q=rng.choice([0, 1]), num_tags=rng.choice([1, 2, 3]),
        strategy='switch', rounds_per_target=1, sel='ALL', gap=.02)
    from vlib.rfidrec import Case
    case = Case(rng, **f)
    b = case.budget()
    y = -f['dist'] + f['speed'] * f['life'] * rng.uniform(.05, .6)
    f['sensitivity'] = case.tag_power(
        b, (f['tag_x'], y, f['tag_z']), 0.0)[0][0]
    if f['sensitivity'] != f['sensitivity'] or f['sensitivity'] < -90:
        f['sensitivity'] = -60.0
    f.update({k: case.p[k] for k in (
        'reader_gain', 'cable', 'tag_gain', 'frequency', 'permittivity',
        'conductivity', 'polloss', 'reflection')}, doppler=False)
    return f


def throng(rng):
    """More tags at once than any list of a fixed size would hold."""
    n = rng.choice([90, 130, 170])
    gap = rng.choice([0.0, 1e-5, 1e-4])
    return dict(friendly(rng), num_tags=n, gap=gap, gaps=[gap] * n,
                life=.5, speed=2.0, q=rng.choice([0, 5, 8]), epc_bitlen=96,
                update=rng.choice([.005, .01]))


def late(rng):
    """Hours between short times on: large times next to small ones."""
    u = rng.choice([1000.0, 3600.0, 12345.678, 86400.0])
    n = rng.choice([1, 2, 4])
    return dict(friendly(rng), switch_power=True, on=rng.choice(
        [.002, .01, rng.uniform(.001, .02)]), off=u * rng.choice([.3, 1, 2]),
        update=u * rng.choice([.1, .25, 1]), num_tags=n, gap=u,
        gaps=[u * rng.choice([0, .5, 1, 1, 3]) for _ in range(n + 2)],
        life=u * rng.choice([2, 5, 8.5]), speed=rng.choice([1, 5]) / u,
        s1=u * rng.choice([.3, .5, 1, 3]), s2=u * rng.choice([.3, 1, 1.5]),
        s3=u * rng.choice([.1, 1, 2, 5]), session=rng.choice([0, 1, 2, 3]),
        antenna_switch=rng.choice([10.0, .003]))


def long(rng):
    """Thousands of rounds with the same few tags."""
    n = rng.choice([1, 2, 3])
    return dict(friendly(rng), num_tags=n, gap=.01, gaps=[.01] * (n + 2),
                life=rng.choice([50.0, 200.0]), speed=.02,
                q=rng.choice([0, 0, 1, 2]), epc_bitlen=96,
                words=rng.choice([1, 2]), update=rng.choice([.01, .05]),
                adjust=False, strategy='switch', rounds_per_target=1,
                sel='ALL', noise=-110.0)


class Drone:
    """Observer that moves the antennas of the reader between events, in place
    or by giving them another position, and remembers where they were."""

    def __init__(self, rng):
        self.rng, self.track = rng, {}

    def start(self, model):
        r = model.reader
        for k in range(r.num_antennas):
            a = r.get_antenna(k)
            a.pos = np.array(a.pos, dtype=float)
            self.track[k] = [(-1.0, a.pos.copy())]

    def __call__(self, rec, e):
        r = rec.model.reader
        if self.rng.random() < .7:
            return
        for k in range(r.num_antennas):
            a = r.get_antenna(k)
            d = np.array([self.rng.uniform(-.01, .01) for _ in range(3)])
            if self.rng.random() < .5:
                a.pos += d
            else:
                a.pos = a.pos + d
            self.track[k].append((e.t, a.pos.copy()))

    def last(self, k):
        return self.track[k][-1][1]

    def at(self, k, t):
        """Positions of antenna k in force at time t."""
        tr = self.track[k]
        i = len(tr) - 1
        while i > 0 and tr[i][0] >= t:
            i -= 1
        out = []
        while i < len(tr) and tr[i][0] <= t:
            out.append(tr[i][1])
            i += 1
        return out


LONG = 7    # times the events of other runs
KINDS = {'any': lambda rng: {}, 'friendly': friendly, 'crowded': crowded,
         'ties': ties, 'flicker': flicker, 'fading': fading,
         'antennas': antennas, 'shortlived': shortlived,
         'adaptive': adaptive, 'persistent': persistent, 'deaf': deaf, 'dying': dying,
         'throng': throng, 'late': late, 'long': long}


def pick(rng, kinds):
    kind = rng.choice(kinds)
    return kind, X.Case(rng, **KINDS[kind](rng))


def sweep(c, n, kinds, observers=lambda: [], events=2500, force=None,
          log_level=None, snaps=True):
    """Run n cases; yields (recorder, kind, case)."""
    rng = c.rng
    kinds = [kinds[i % len(kinds)] for i in range(n)]
    if n > 5:
        kinds += (n // 30 + 1) * ['late', 'long']
    for i, kind in enumerate(kinds):
        f = KINDS[kind](rng)
        if force:
            f.update(force(rng))
        case = X.Case(rng, **f)
        seed = rng.randrange(2 ** 32)
        c.begin(dict(kind=kind, settings={k: repr(v) for k, v in
                                          case.p.items()}, seed=seed,
                     max_num_events=events))
        rec = X.run_case(case, seed, observers(),
                         max_num_events=events * (LONG if kind == 'long'
                                                  else 1),
                         log_level=log_level, snaps=snaps)
        log = rec.log
        c.count('events', log.n_events)
        c.count('exchanges', len(log.exchanges))
        c.count('replies', sum(len(x.replies) for x in log.exchanges))
        c.count('received', sum(len(x.received or ())
                                for x in log.exchanges))
        c.count('tags', len(log.entered))
        if i < 2:
            c.sample(dict(kind=kind, exchanges=len(log.exchanges),
                          first=[(round(x.start, 9), x.cmd[0],
                                  len(x.replies)) for x in
                                 log.exchanges[:6]]))
        yield rec, kind, case
