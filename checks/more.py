"""R07, S10, L04: what a run tells its subscribers, records and logs."""
import collections
import logging
import os
import re
import shutil
import tempfile

import numpy as np

from checks.reader import make_reader
from vlib import linkref as L
from vlib import refstd as R
from vlib import rfidcases as W
from vlib import rfidrec as X
from vlib.core import check, quiet
from pysim.sim.logger import ModelLoggerConfig

obj, std = X.obj, X.std
OFF = X.OFF


# --------------------------------------------------------------------------
# R07: subscribers
# --------------------------------------------------------------------------
KINDS = ('state_change', 'round_start', 'round_finish', 'power_on',
         'power_off', 'slot_start', 'slot_finish')


class Sub:
    def __init__(self, kind, n, kw):
        self.kind, self.n, self.kw = kind, n, kw
        self.id = None
        self.on_call = None


class Board:
    """All subscribers of one reader and the order in which they are told."""

    def __init__(self, c, reader):
        self.c, self.reader = c, reader
        self.subs = {k: [] for k in KINDS}      # still subscribed, in order
        self.now = None                         # notification in progress
        self.depth = 0
        self.heard = {k: 0 for k in KINDS}
        self.log = []
        self.open = []      # announced and not finished: round, slot
        self.n = 0
        for k in KINDS:     # the first subscriber opens each notification
            self.list(k).add(self.opener(k))

    def list(self, kind):
        return getattr(self.reader, kind + '_listeners')

    def opener(self, kind):
        def first(*args, **kw):
            self.close()
            self.c.eq(kw, {}, 'named arguments of a subscriber without any')
            self.now = dict(kind=kind, args=args, want=list(self.subs[kind]),
                            got=[], maybe=set())
            self.heard[kind] += 1
            self.log.append((kind, args))
            self.brackets(kind, args)
            if kind == 'state_change':
                self.c.eq(len(args), 2, 'arguments of a state change')
                self.c.expect(args[0] is self.reader.state,
                              'state before a change')
        return first

    def brackets(self, kind, args):
        """Rounds and slots are announced in pairs, slots within rounds."""
        c, o = self.c, self.open
        if kind == 'round_start':
            c.eq(o, [], 'what is unfinished when a round starts')
            self.open = [args]
        elif kind == 'slot_start':
            c.eq(o, [args[:1]], 'what is unfinished when a slot starts')
            self.open = o + [args]
        elif kind == 'slot_finish':
            c.eq(o, [args[:1], args], 'what is unfinished when a slot ends')
            self.open = o[:1]
        elif kind == 'round_finish':
            c.eq(o, [args], 'what is unfinished when a round ends')
            self.open = []

    def close(self):
        """The notification in progress is over."""
        n, self.now = self.now, None
        if n is None:
            return
        c = self.c
        got = [s.n for s in n['got']]
        want = [s.n for s in n['want']]
        sure = [s.n for s in n['want'] if s not in n['maybe']]
        info = dict(kind=n['kind'], args=[str(a) for a in n['args']],
                    told=got, subscribed=want)
        c.eq(len(set(got)), len(got), 'a subscriber is told twice', **info)
        order = [x for x in want if x in got]
        late = {s.n for s in n['maybe']}
        c.eq([x for x in got if x not in late or x in order], order,
             'order in which subscribers are told', **info)
        missing = [x for x in sure if x not in got]
        c.expect(not missing, 'a subscriber is not told', missing=missing,
                 **info)
        c.count('told', len(got))
        if n['maybe']:
            c.count('changes while telling')
        c.seen((n['kind'], len(want), len(got), tuple(sorted(late))))

    def add(self, kind, on_call=None):
        rng = self.c.rng
        kw = {k: self.n for k in rng.sample(['a', 'b', 'tag'], rng.choice(
            [0, 0, 1, 2]))}
        s = Sub(kind, self.n, kw)
        s.on_call = on_call
        self.n += 1

        def fn(*args, **kw):
            n = self.now
            self.c.expect(n is not None and n['kind'] == kind,
                          'a subscriber of something else is told',
                          kind=kind, told=n and n['kind'])
            self.c.expect(s in n['want'] or s in n['maybe'],
                          'somebody who left is told', subscriber=s.n,
                          kind=kind)
            self.c.expect(len(args) == len(n['args']) and all(
                a is b or a == b for a, b in zip(args, n['args'])),
                'arguments of a subscriber', got=[str(a) for a in args])
            self.c.eq(kw, s.kw, 'named arguments of a subscriber')
            n['got'].append(s)
            if s.on_call:
                s.on_call(s)
        s.id = self.list(kind).add(fn, **kw)
        ids = [x.id for x in self.subs[kind]]
        self.c.expect(s.id is not None and s.id not in ids,
                      'identifier of a subscription', got=s.id, others=ids)
        self.subs[kind].append(s)
        if self.now is not None and self.now['kind'] == kind:
            self.now['maybe'].add(s)
        return s

    def remove(self, s):
        self.list(s.kind).remove(s.id)
        self.subs[s.kind].remove(s)
        if self.now is not None and self.now['kind'] == s.kind and \
                s not in self.now['got']:
            self.now['maybe'].add(s)
        self.c.count('left')


def subscribers(c, i):
    rng = c.rng
    r, p = make_reader(rng, q=rng.choice([0, 1, 2]))
    b = Board(c, r)
    c.begin(dict(case=i, q=p['q'], read_tid=p['read_tid']))

    def leave(s):
        if s in b.subs[s.kind]:     # nobody else made it leave meanwhile
            b.remove(s)

    def meddle(s):
        kind = s.kind if rng.random() < .7 else rng.choice(KINDS)
        if rng.random() < .5 and b.n < 60:
            b.add(kind)
        elif b.subs[kind]:
            b.remove(rng.choice(b.subs[kind]))

    def join():
        kind = rng.choice(KINDS)
        b.add(kind, rng.choice([None, None, leave, leave, meddle]))
    for _ in range(rng.choice([0, 3, 12])):
        join()
    on = False
    with quiet():
        for _ in range(rng.randint(5, 40)):
            if rng.random() < .4 and b.n < 60:
                join()
            if rng.random() < .25:
                s = [x for v in b.subs.values() for x in v]
                if s:
                    b.remove(rng.choice(s))
            if rng.random() < .03:
                kind = rng.choice(KINDS)
                b.list(kind).clear()
                b.subs[kind] = []
                b.list(kind).add(b.opener(kind))
            if rng.random() < .1:       # an unknown subscriber leaves
                b.list(rng.choice(KINDS)).remove(10 ** 6)
            heard = dict(b.heard)
            n = len(b.log)
            state = r.state
            what = rng.choice(['timeout', 'timeout', 'reply', 'switch'])
            if what == 'switch' and on:
                r.turn_off()
                on = False
                c.eq(b.heard['power_off'], heard['power_off'] + 1,
                     'subscribers of switching off are told')
            elif not on:
                r.turn_on()
                on = True
                c.eq(b.heard['power_on'], heard['power_on'] + 1,
                     'subscribers of switching on are told')
            elif what == 'reply':
                pre = std.create_tag_preamble(r.tag_encoding, r.trext)
                rep = {'ACK': lambda: std.AckReply('AAAA' * 6),
                       'REQRN': lambda: std.ReqRNReply(77),
                       'READ': lambda: std.ReadReply('1234', 77)}.get(
                    r.state.name, lambda: std.QueryReply(5))
                r.receive(std.TagFrame(pre, rep()))
            else:
                r.timeout()
            b.close()
            c.eq(bool(b.open), on, 'a round is open while the reader is on')
            if what != 'switch':
                c.eq(b.heard['power_off'], heard['power_off'],
                     'switching off is announced without happening')
            moves = [a for k, a in b.log[n:] if k == 'state_change']
            path = [state] + [a[1] for a in moves]
            c.expect(path[-1] is r.state and all(
                a[0] is x for a, x in zip(moves, path)),
                'state changes lead from the old to the new state',
                moves=[(str(x), str(y)) for x, y in moves],
                before=str(state), after=str(r.state))
    c.count('readers')


@check('R07', 'subscribers that join, leave and leave while being told, on '
              'readers driven by hand through all states; every '
              'notification, its arguments and the order of the told '
              'against the subscriptions; whole runs with switching; '
              'distinct = (event, subscribed, told, changed meanwhile)')
def r07(c):
    for i in range(c.n(1200)):
        subscribers(c, i)
    # every list of whole runs
    for rec_kind in range(c.n(6)):
        rng = c.rng
        case = X.Case(rng, **dict(
            W.KINDS['flicker'](rng), antennas=(1, 3, 4)[rec_kind % 3],
            antenna_switch=.05))
        seed = rng.randrange(2 ** 32)
        c.begin(dict(seed=seed, settings={k: repr(v) for k, v in
                                          case.p.items()}))
        model = case.build()
        heard = collections.Counter()
        for k in ('power_on', 'power_off'):
            getattr(model.reader, k + '_listeners').add(
                lambda k=None, **kw: heard.update([k]), k=k)
        rec = X.Recorder(model, (), False)
        rec.case = case
        log = rec.run(seed, max_num_events=400)
        c.eq((heard['power_on'], heard['power_off']),
             (sum(s for _, s in log.on_off),
              sum(not s for _, s in log.on_off)),
             'number of announced switches')
        c.count('switches', len(log.on_off))
    c.need('told', 3000)
    c.need('left', 500)
    c.need('changes while telling', 200)
    c.need('switches', 6)


# --------------------------------------------------------------------------
# S10: the power history
# --------------------------------------------------------------------------
class Instants:
    """Antenna and power of the reader at the time of every event."""

    def __init__(self):
        self.at = collections.defaultdict(set)

    def __call__(self, rec, e):
        for r in (e.r0, e.r1):
            self.at[e.t].add((r.antenna, r.power is not None, r.t_on))
        for t in e.present1:
            if t not in self.records:
                self.records[t] = rec.model.statistics.get_tag_record(t)

    records = None


def clusters(times, tol):
    """Sorted (time, weight) pairs, merged when closer than tol."""
    out = []
    for t, sure in sorted(times):
        if out and t - out[-1][0] <= tol:
            out[-1][1] += sure
            out[-1][2] += 1
        else:
            out.append([t, int(sure), 1])
    return out


@check('S10', 'runs with and without power statistics; times of all power '
              'records of every tag against the instants at which its power '
              'is brought up to date; antenna, power and time since '
              'switching on; distinct = (workload, records, present)')
def s10(c):
    rng = c.rng
    kinds = ['friendly', 'any', 'antennas', 'flicker', 'ties', 'shortlived',
             'fading']
    for i in range(c.n(24)):
        kind = kinds[i % len(kinds)] if i % 24 < 21 else \
            ('throng', 'late', 'long')[i % 24 - 21]
        f = W.KINDS[kind](rng)
        use = i % 5 != 2 or kind in ('late', 'long')
        f.update(power_stats=use)
        if kind != 'late':
            f.update(update=rng.choice([.01, .003, .02, .0011]))
        if rng.random() < .3 and kind != 'late':
            f.update(switch_power=True, on=rng.choice([.02, .05]),
                     off=rng.choice([.003, .02]))
        case = X.Case(rng, **f)
        seed = rng.randrange(2 ** 32)
        c.begin(dict(kind=kind, seed=seed, power_statistics=use,
                     settings={k: repr(v) for k, v in case.p.items()}))
        o = Instants()
        o.records = {}
        drone = W.Drone(rng) if i % 3 == 1 else None
        rec = X.run_case(case, seed, [o, drone] if drone else [o],
                         max_num_events={'throng': 380, 'long': 3000}.get(
                             kind, 500))
        log, p = rec.log, case.p
        end = log.last_time
        tol = 1e-10
        # instants at which the powers of all tags are brought up to date
        common = [(t, True) for t, _ in log.on_off]
        t = p['update']
        while t <= end + tol:
            common.append((t, True))
            t += p['update']
        for x in log.exchanges:
            start = x.attrs['reply_start_time']
            if start is not None:
                over = x.end if x.end is not None else end
                if start < over - tol:
                    common.append((start, True))
                elif start <= over + tol:
                    common.append((start, False))
        left = {tag: t for t, tag in log.left}
        g = rec.model.generators[0]
        unit = np.asarray(g.direction, float)
        unit = unit / np.linalg.norm(unit)
        for born, tag in log.entered:
            h = o.records.get(tag)
            if h is None:       # entered and left within one event
                continue
            got = [x.time for x in h.power_mapping]
            if not use:
                c.eq(len(got), 0, 'power records without power statistics')
                c.count('without')
                continue
            gone = left.get(tag, end)
            want = [(born, True)]
            for t, sure in common:
                if born - tol <= t <= gone + tol:
                    want.append((t, sure and born + tol < t < gone - tol))
            want = clusters(want, tol)
            info = dict(kind=kind, born=born, gone=gone, records=len(got))
            c.expect(got == sorted(got), 'power records in order of time',
                     **info)
            c.expect(got and abs(got[0] - born) <= tol,
                     'first power record of a tag', first=got[:1], **info)
            k = 0
            for t, least, most in want:
                n = 0
                while k < len(got) and got[k] <= t + tol:
                    c.expect(got[k] >= t - tol, 'a power record at another '
                             'time', at=got[k], next=t, **info)
                    n, k = n + 1, k + 1
                c.expect(least <= n <= most, 'number of power records at an '
                         'instant', at=t, got=n, least=least, most=most,
                         **info)
                c.count('instants')
                if n > 1:
                    c.count('several at once')
            c.expect(k == len(got), 'power records after the last instant',
                     at=got[k:k + 1], **info)
            for x in h.power_mapping:
                seen = o.at.get(x.time)
                c.expect(seen, 'power record at the time of an event',
                         at=x.time)
                on = x.field_lifetime != np.inf
                ok = [a for a, s, t_on in seen
                      if a == x.reader_antenna_index and s == on and (
                          not on or abs(x.field_lifetime -
                                        (x.time - t_on)) < 1e-9)]
                c.expect(ok, 'antenna and time since switching on of a power '
                         'record', at=x.time, antenna=x.reader_antenna_index,
                         field=x.field_lifetime, states=sorted(map(str, seen))
                         )
                want = g.pos0 + g.velocity * unit * (x.time - born)
                c.expect(np.allclose(x.tag_pos, want, 1e-9, 1e-6),
                         'position of the tag in a power record', at=x.time,
                         got=x.tag_pos, want=want)
                k = x.reader_antenna_index
                c.expect(any(np.array_equal(x.reader_antenna_pos, v) for v in (
                    drone.at(k, x.time) if drone else
                    [rec.model.reader.get_antenna(k).pos])),
                    'position of the antenna in a power record')
                c.count('records of a moving reader', drone is not None)
                c.eq(float(x.reader_tx_power), float(p['power']) if on
                     else -120.0, 'power of the reader in a power record',
                     at=x.time)
                if not on:
                    c.eq((x.tag_rx_power, x.tag_tx_power, x.reader_rx_power),
                         (-120, -120, -120), 'powers without a reader')
                    c.count('records while off')
                str(x)
            c.count('records', len(got))
            c.seen((kind, len(got), round(gone - born, 4)))
    c.need('records', 300)
    c.need('records of a moving reader', 100)
    c.need('without', 1)
    c.need('records while off', 1)


# --------------------------------------------------------------------------
# L04: the log of a run
# --------------------------------------------------------------------------
def stamp(text):
    """The time of a log line, rounded the same way wherever it is from."""
    return round(float(text), 9)


class Told:
    """What the log of a run must tell, from the observed events."""

    def __init__(self):
        self.want = collections.Counter()
        self.powers = []        # (time, kind, tag, ranges of the power)
        self.last = None        # exchange, its lone reply's power ranges

    def follow(self, rec, e):
        """The power at the reader of the lone reply under way, as of the
        last time it was brought up to date."""
        tr = e.tr1
        if tr is None or len(tr.replies) != 1:
            self.last = None
            return
        if self.last is None or self.last[0] is not tr:
            self.last = (tr, None)
        tag = tr.replies[0][0]
        s0, s1 = e.tags0.get(tag), e.tags1.get(tag)
        if s0 is None or s1 is None or tr is not e.tr0 or \
                (s0.pos, s0.power) == (s1.pos, s1.power):
            return
        if s1.power is None or self.last[1] == 'lost':
            self.last = (tr, 'lost')
        else:
            self.last = (tr, rec.case.back_power(
                self.budget, s1.power, s1.pos, e.t - rec.log.on_off[-1][0],
                e.r1.antenna))

    def put(self, t, *what):
        self.want[(stamp('%.12f' % t),) + what] += 1

    def __call__(self, rec, e):
        t = e.t
        for tag in e.present1:
            if tag not in e.tags0:
                self.put(t, 'enters', tag.tag_id)
        for tag in e.present0:
            if tag not in e.present1:
                self.put(t, 'leaves', tag.tag_id)
        for tag, s1 in e.tags1.items():
            s0 = e.tags0.get(tag)
            was = s0 is not None and s0.state is not OFF
            if was != (s1.state is not OFF):
                self.put(t, 'off' if was else 'on', tag.tag_id)
        for _, kind, i, j in e.listeners:
            if kind == 'round+':
                self.put(t, 'round', i)
        if e.r0.q != e.r1.q:
            self.put(t, 'Q', e.r0.q, e.r1.q)
        ended = e.tr0 is not None and e.tr0 is not e.tr1 and \
            e.r1.power is not None
        if ended and len(e.tr0.replies) > 1:
            self.put(t, 'collision')
        for f in e.received:
            k = X.reply_kind(f.reply)
            if k in ('epc', 'data'):
                tag = [x for x, g in e.tr0.replies if g is f]
                data = bytes(f.reply.epc if k == 'epc' else f.reply.memory)
                self.put(t, k, tag[0].tag_id if tag else None,
                         data.hex().upper())
                if tag and self.last is not None and \
                        isinstance(self.last[1], list):
                    self.powers.append((stamp('%.12f' % t), k, tag[0].tag_id,
                                        self.last[1]))
        self.follow(rec, e)


PATTERNS = [
    ('enters', re.compile(r'\(\+\) tag (\d+) created')),
    ('leaves', re.compile(r'\(x\) tag (\d+) died')),
    ('on', re.compile(r'tag (\d+) powered on\b')),
    ('off', re.compile(r'tag (\d+) powered off\b')),
    ('round', re.compile(r'ROUND #(\d+) STARTED')),
    ('Q', re.compile(r'Q с (\d+) до (\d+)')),
    ('collision', re.compile(r'Коллизия')),
    ('epc', re.compile(r'EPC=([0-9A-Fa-f]+).* from tag (\d+)')),
    ('data', re.compile(r'memory=([0-9A-Fa-f]*).* from tag (\d+)')),
]


POWER = re.compile(r'(EPC|memory)=[0-9A-Fa-f]*, received power=(\S+) '
                   r'from tag (\d+)')


def told_by(line):
    t, level, msg = line.split('|', 2)
    t = stamp(t)
    for what, pat in PATTERNS:
        m = pat.search(msg)
        if not m:
            continue
        if what in ('epc', 'data'):
            if not msg.lstrip().startswith('--'):
                continue
            return (t, what, int(m.group(2)), m.group(1).upper())
        return (t, what) + tuple(int(x) for x in m.groups())
    return None


@check('L04', 'the log file of complete runs parsed line by line and compared '
              'as a multiset with the events observed in the run; distinct = '
              '(what is told, data)')
def l04(c):
    rng = c.rng
    d = tempfile.mkdtemp(prefix='verif-log-')
    kinds = ['friendly', 'adaptive', 'crowded', 'flicker', 'shortlived',
             'any']
    try:
        for i in range(c.n(27)):
            kind = kinds[i % len(kinds)] if i % 27 < 24 else \
                ('throng', 'late', 'long')[i % 27 - 24]
            f = W.KINDS[kind](rng)
            f.update(read_tid=rng.random() < .8)
            if i % 5 == 2:      # replies far below the usual powers
                f.update(noise=-160.0, modloss=rng.uniform(-60, -40))
            case = X.Case(rng, **f)
            seed = rng.randrange(2 ** 32)
            level = rng.choice([logging.DEBUG, logging.INFO, logging.INFO,
                                logging.ERROR])
            c.begin(dict(kind=kind, seed=seed, level=level,
                         settings={k: repr(v) for k, v in case.p.items()}))
            told = Told()
            told.budget = case.budget()
            rec = X.Recorder(case.build(), [told])
            rec.case = case
            fn = os.path.join(d, f'run{i}.log')
            log = rec.run(seed, max_num_events=(9000 if kind == 'long'
                                                else 1200),
                          logger_config=ModelLoggerConfig(
                              fmt='{simTime:.12f}|{levelno}|{message}',
                              level=level, file_name=fn))
            with open(fn, encoding='utf8', errors='replace') as fh:
                lines = [x for x in fh.read().split('\n')
                         if re.match(r'\d+\.\d{12}\|\d+\|', x)]
            os.unlink(fn)
            got = collections.Counter(
                x for x in map(told_by, lines) if x is not None)
            keep = None if level < logging.WARNING else ('Q', 'collision')
            want = collections.Counter({
                k: v for k, v in told.want.items()
                if keep is None or k[1] in keep})
            for k in set(got) | set(want):
                near = [x for x in got if x[1:] == k[1:]][:3]
                c.eq(got[k], want[k], 'times that an event is told',
                     event=k, told_at=[x[0] for x in near])
                c.count(k[1], want[k])
                c.seen(k[1:])
            powers = {}
            for line in lines:
                m = POWER.search(line)
                if m:
                    powers[stamp(line.split('|', 1)[0]), {
                        'EPC': 'epc', 'memory': 'data'}[m.group(1)],
                        int(m.group(3))] = m.group(2)
            for t, k, tag_id, want in told.powers if keep is None else ():
                text = powers.get((t, k, tag_id))
                c.expect(text is not None, 'the power of a reply is not told',
                         at=t, kind=k, tag=tag_id)
                c.expect(L.within(float(text), want, 0.0),
                         'power of a reply that is told', at=t, kind=k,
                         tag=tag_id, got=text, want=want)
                c.count('powers told')
            last = -1.0
            for line in lines:
                t = float(line.split('|', 1)[0])
                c.expect(t >= last, 'log lines in order of model time',
                         line=line[:200], last=last)
                last = t
            c.count('lines', len(lines))
            c.expect(lines or level >= logging.WARNING, 'an empty log')
            if i < 2:
                c.sample(lines[:8])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for k, n in dict(enters=20, leaves=5, on=20, off=10, round=50, Q=5,
                     collision=10, epc=10, data=2,
                     **{'powers told': 10}).items():
        c.need(k, n)
