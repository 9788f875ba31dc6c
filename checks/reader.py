"""R01..R06: the reader as the master of the protocol."""
import math

import numpy as np

from vlib import refstd as R
from vlib import rfidcases as W
from vlib import rfidrec as X
from vlib.core import check, isclose, quiet
from vlib.stub import StubKernel

std, obj = X.std, X.obj
SLOT_CMDS = ('Query', 'QueryRep', 'QueryAdjust')


# --------------------------------------------------------------------------
# Reference: which command follows
# --------------------------------------------------------------------------
def check_command(c, p, cmd, rep_q, **info):
    """Fields of a command against the configuration."""
    if cmd[0] == 'Query':
        c.eq(cmd[1:6], (p['dr'], p['m'], p['trext'], p['sel'], p['session']),
             'fields of the round-opening command', **info)
        c.eq(cmd[7], rep_q, 'Q of the round-opening command', **info)
    elif cmd[0] in ('QueryRep', 'QueryAdjust'):
        c.eq(cmd[1], p['session'], 'session of the command', cmd=cmd, **info)
    elif cmd[0] == 'Read':
        c.eq(cmd[1:4], (2, 0, p['words']), 'bank, pointer and words read',
             **info)


def follow(c, p, prev, received, adjust_ok, **info):
    """Expected next command: ('Ack', rn), ... or None for a slot command."""
    kind, rn = received if received else (None, None)
    if prev[0] in SLOT_CMDS:
        if kind is None:
            return None
        c.eq(kind, 'rn16', 'received in answer to a slot command', **info)
        return ('Ack', rn)
    if prev[0] == 'Ack':
        if kind is None:
            return None
        c.eq(kind, 'epc', 'received in answer to Ack', **info)
        return ('ReqRN', prev[1]) if p['read_tid'] else None
    if prev[0] == 'ReqRN':
        if kind is None:
            return None
        c.eq(kind, 'handle', 'received in answer to ReqRN', **info)
        return ('Read', rn)
    if kind is not None:
        c.eq(kind, 'data', 'received in answer to Read', **info)
    return None


def check_next(c, p, prev, received, cmd, slot0, adjust, **info):
    """cmd follows prev; slot0: it opens a round (None: unknown)."""
    want = follow(c, p, prev, received, adjust, **info)
    info = dict(info, after=prev, received=received, command=cmd)
    if want is None:
        c.expect(cmd[0] in SLOT_CMDS, 'the reader goes to the next slot',
                 **info)
        if cmd[0] == 'QueryAdjust':
            c.expect(adjust and prev[0] in SLOT_CMDS and received is None,
                     'adjust command out of place', **info)
        elif slot0 is not None:
            c.eq(cmd[0] == 'Query', slot0, 'command that opens a round',
                 **info)
        return
    c.eq(cmd[0], want[0], 'next command of the reader', **info)
    if cmd[0] in ('Ack', 'ReqRN'):
        c.eq(cmd[1], want[1], 'number in the command', **info)
    else:
        c.eq(cmd[4], want[1], 'handle in the command', **info)


# --------------------------------------------------------------------------
# Driving a reader by hand
# --------------------------------------------------------------------------
class Listened:
    def __init__(self, reader):
        self.items = []
        add = self.items.append
        reader.round_start_listeners.add(
            lambda i, **kw: add(('round+', i, None)))
        reader.round_finish_listeners.add(
            lambda i, **kw: add(('round-', i, None)))
        reader.slot_start_listeners.add(
            lambda i, j, **kw: add(('slot+', i, j)))
        reader.slot_finish_listeners.add(
            lambda i, j, **kw: add(('slot-', i, j)))

    def take(self):
        r, self.items[:] = list(self.items), []
        return r


def make_reader(rng, case=None, antennas=None, **over):
    """A reader configured with plain values; returns (reader, p)."""
    p = dict((case or X.Case(rng)).p)
    p.update(over)
    r = obj.Reader(StubKernel(obj.Model()))
    apply_settings(r, p)
    for _ in range(antennas or rng.choice([1, 1, 1, 2, 4])):
        r.attach_antenna(obj.Antenna())
    return r, p


def other_settings(rng, r, p):
    """A reader in use (and off) takes other settings."""
    q = p['q']
    p.update(X.Case(rng).p)
    p['q'] = q
    apply_settings(r, p)


def apply_settings(r, p):
    rtcal = p['tari'] * p['rtmul']
    r.tari, r.rtcal, r.trcal = p['tari'], rtcal, rtcal * p['trmul']
    r.delim, r.temp = p['delim'], X.TEMPS[p['temp']]
    r.q, r.tag_encoding, r.trext = p['q'], X.MS[p['m']], p['trext']
    r.dr, r.sel = X.DRS[p['dr']], X.SELS[p['sel']]
    r.session, r.target = X.SESS[p['session']], X.TARGETS[p['target']]
    r.target_strategy = p['strategy']
    r.rounds_per_target = p['rounds_per_target']
    r.read_tid_bank, r.read_tid_words_num = p['read_tid'], p['words']
    r.use_query_adjust, r.adjust_delta, r.q_fp = False, p['delta'], p['q']
    r.max_power = p['power']
    p['rtcal'], p['trcal'] = r.rtcal, r.trcal


def command_of(c, p, frame, what):
    """Decodes a command frame and checks its duration."""
    c.expect(frame is not None, f'no command after {what}')
    bits = frame.command.encode()
    cmd = R.decode(bits)
    c.expect(cmd is not None, 'malformed command', bits=bits)
    c.close(frame.duration, R.reader_frame(bits, p['tari'], p['rtcal'],
                                           p['trcal'], p['delim']),
            'duration of the command (preamble, timing)', cmd=cmd)
    return cmd


class UnknownReply(std.Reply):
    """A reply of a kind the reader does not know."""

    def __init__(self):
        super().__init__(None)
        self.rn = 7

    @property
    def bitlen(self):
        return 16


def tag_frame(p, kind, rn, data=b'\x12\x34'):
    pre = std.create_tag_preamble(X.MS[p['m']], p['trext'])
    r = {'rn16': lambda: std.QueryReply(rn),
         'epc': lambda: std.AckReply(data.hex()),
         'handle': lambda: std.ReqRNReply(rn),
         'data': lambda: std.ReadReply(data.hex(), rn=rn),
         'unknown': UnknownReply}[kind]()
    return std.TagFrame(pre, r)


GOOD = {'Query': 'rn16', 'QueryRep': 'rn16', 'QueryAdjust': 'rn16',
        'Ack': 'epc', 'ReqRN': 'handle', 'Read': 'data'}


class Grammar:
    """Round and slot notifications."""

    def __init__(self, c):
        self.c = c
        self.round = None       # index
        self.slot = None
        self.next_slot = None
        self.last_round = None
        self.done = None        # (round, number of slots)

    def feed(self, kind, i, j, **info):
        c = self.c
        info = dict(info, kind=kind, round=i, slot=j)
        if kind == 'round+':
            c.expect(self.round is None, 'a round starts inside a round',
                     open=self.round, **info)
            c.eq(i, 0 if self.last_round is None else self.last_round + 1,
                 'index of a round', **info)
            self.round = self.last_round = i
            self.next_slot = 0
        elif kind == 'slot+':
            c.eq(i, self.round, 'a slot starts outside its round', **info)
            c.expect(self.slot is None, 'a slot starts inside a slot',
                     open=self.slot, **info)
            c.eq(j, self.next_slot, 'index of a slot', **info)
            self.slot = j
            self.next_slot = j + 1
        elif kind == 'slot-':
            c.eq((i, j), (self.round, self.slot), 'another slot is closed',
                 **info)
            c.expect(self.slot is not None, 'no slot to close', **info)
            self.slot = None
        else:
            c.eq(i, self.round, 'another round is closed', **info)
            c.expect(self.slot is None, 'a round is closed with an open slot',
                     **info)
            self.done = (i, self.next_slot)
            self.round = None


@check('R01', 'readers driven by hand through random outcomes (every reply '
              'in and out of order, timeouts, power cycles) and whole runs '
              'with losses, collisions, leaving tags and adaptation; every '
              'command against the one prescribed by its predecessor and '
              'the outcome; distinct = (command, outcome, next command)')
def r01(c):
    rng = c.rng
    for i in range(c.n(400)):
        r, p = make_reader(rng, q=rng.choice([0, 0, 1, 2, 3, 5]))
        lis = Listened(r)
        trace = []
        c.begin(dict(p={k: repr(v) for k, v in p.items()}, trace=trace))
        with quiet():
            on, prev = False, None
            good = rng.choice([.3, .7, .9, .97])
            for _ in range(60 if i != 7 else 25000):
                if i == 7:
                    del trace[:-200]
                    if good < .9:
                        good = .9
                if not on:
                    k = rng.random()
                    if k < .25:     # replies to a reader that is off
                        kind = rng.choice(list(set(GOOD.values())))
                        f = r.receive(tag_frame(p, kind, 7))
                        c.eq(f, None, 'a reader that is off answers')
                        c.eq(r.power, None, 'power of a reader that is off')
                        c.count('ignored')
                        continue
                    if trace and rng.random() < .3:
                        other_settings(rng, r, p)
                        trace.append(('settings', {
                            k: repr(v) for k, v in p.items()}))
                        c.count('other settings of a reader in use')
                    f = r.turn_on()
                    lis.take()
                    c.expect(r.power == p['power'],
                             'power of a reader that is on', got=r.power)
                    cmd = command_of(c, p, f, 'power on')
                    c.eq(cmd[0], 'Query', 'first command')
                    check_command(c, p, cmd, p['q'])
                    prev, on = cmd, True
                    trace.append(('on', cmd))
                    continue
                k = rng.random()
                if k < (.03 if i != 7 else .0001):
                    r.turn_off()
                    on = False
                    c.eq(r.power, None, 'power of a reader that is off')
                    trace.append('off')
                    continue
                if k < .05:
                    c.eq(r.turn_on(), None, 'a command by switching on what '
                         'is on')
                    continue
                if k < .08 or (prev[0] == 'QueryAdjust' and k < .4):
                    wrong = rng.choice([x for x in sorted(set(GOOD.values()))
                                        if x != GOOD[prev[0]]] + ['unknown'])
                    trace.append(('out of order', wrong))
                    lis.take()
                    try:
                        f = r.receive(
                            tag_frame(p, wrong, rng.randrange(65536)))
                    except Exception:
                        c.count('refused')
                        c.count('refused after ' + prev[0])
                        c.seen((prev[0], wrong, 'refused'))
                        c.eq(lis.take(), [], 'a refused reply ends a slot')
                        # and the exchange goes on as if nothing came
                        continue
                    c.fail('a reply out of order is accepted', after=prev,
                           reply=wrong)
                if k < .12 and prev[0] in ('Query', 'QueryRep'):
                    # what an adapting run does on silence or a collision
                    r.updn = rng.choice([-1, 1])
                    f = r.set_state(obj.Reader.State.QAdjust)
                    cmd = command_of(c, p, f, 'adaptation')
                    c.eq(cmd, ('QueryAdjust', p['session'], r.updn),
                         'command of the adaptation')
                    trace.append(('adjust', cmd))
                    c.count('adaptations')
                    prev = cmd
                    continue
                lis.take()
                if rng.random() < good:
                    rn = rng.choice([0, 0xFFFF, rng.randrange(65536)])
                    got = (GOOD[prev[0]], rn)
                    f = r.receive(tag_frame(p, got[0], rn, rng.randbytes(
                        rng.choice([2, 12]))))
                else:
                    got = None
                    f = r.timeout()
                cmd = command_of(c, p, f, prev)
                news = lis.take()
                slots = [x for x in news if x[0] == 'slot+']
                if cmd[0] in SLOT_CMDS:
                    c.expect(len(slots) == 1, 'one slot per slot command',
                             news=news)
                else:
                    c.expect(not news, 'a slot ends inside an exchange',
                             news=news)
                check_next(c, p, prev, got, cmd,
                           slots[0][2] == 0 if slots else None, False)
                check_command(c, p, cmd, p['q'])
                trace.append((got, cmd))
                c.seen((prev[0], got and got[0], cmd[0]))
                c.count('commands')
                prev = cmd
    kinds = ['friendly', 'crowded', 'fading', 'shortlived', 'adaptive',
             'flicker', 'any', 'persistent', 'antennas']
    for rec, kind, case in W.sweep(c, c.n(22), kinds, events=1500,
                                   snaps=False):
        log, p = rec.log, case.p
        prev = None
        for x in log.exchanges:
            c.expect(x.cmd is not None, 'malformed command', bits=x.bits)
            info = dict(t=x.start, index=x.index)
            q = x.reader.q
            check_command(c, p, x.cmd, q, **info)
            if not p['adjust']:
                c.eq(q, p['q'], 'Q of the reader', **info)
            want = R.reader_frame(x.bits, p['tari'], case.rtcal, case.trcal,
                                  p['delim'])
            c.close(x.frame.duration, want, 'duration of the command',
                    cmd=x.cmd, **info)
            if prev is None or prev.ended_by != 'next':
                c.eq(x.cmd[0], 'Query', 'first command after power on',
                     **info)
            else:
                rec_ = prev.received
                c.expect(len(rec_) <= 1, 'several replies received', **info)
                got = None
                if rec_:
                    k = X.reply_kind(rec_[0].reply)
                    got = (k, getattr(rec_[0].reply, 'rn', None))
                    c.expect(any(f is rec_[0] for _, f in prev.replies) or
                             any(X.reply_kind(f.reply) == k and
                                 vars(f.reply) == vars(rec_[0].reply)
                                 for _, f in prev.replies),
                             'the reader received what nobody sent', **info)
                slot0 = None if x.round is None else x.round[1] == 0
                check_next(c, p, prev.cmd, got, x.cmd, slot0, p['adjust'],
                           **info)
                c.seen((prev.cmd[0], got and got[0], len(prev.replies),
                        x.cmd[0]))
            c.count('commands in runs')
            prev = x
    c.need('commands', 5000)
    c.need('refused', 30)
    c.need('adaptations', 30)
    c.need('ignored', 50)
    c.need('received', 50)


@check('R02', 'readers driven by hand through rounds of all Q up to 15 with '
              'power cycles at random slots, and whole runs (also with '
              'adaptation); notifications against the grammar of rounds '
              'and slots, number of slots of every complete round; distinct '
              '= (Q, slots, end)')
def r02(c):
    rng = c.rng
    for i in range(c.n(160)):
        q = i if i <= 12 else 15 if i == 13 else rng.choice(
            [0, 0, 1, 2, 3, 4, 5, 6, 8])
        far = i in (15, 16)     # thousands of rounds without a break
        if far:
            q = i - 15
        r, p = make_reader(rng, q=q)
        lis, g = Listened(r), Grammar(c)
        c.begin(dict(q=q, p={k: repr(v) for k, v in p.items()}))
        steps = rng.choice([1, 2, 3]) * 2 ** q + rng.randrange(5) \
            if q > 6 else rng.randrange(30, 260)
        if far:
            steps = 24000
        p_off = 0 if i <= 16 else rng.choice([0, 0, .01, .1])
        with quiet():
            prev = command_of(c, p, r.turn_on(), 'power on')
            cuts, on = 0, True
            for k in range(steps + 2):
                news = lis.take()
                for n in news:
                    g.feed(*n, q=q)
                    if n[0] == 'round-' and on:
                        c.eq(g.done[1], 2 ** q, 'slots of a round', q=q)
                        c.count('rounds')
                        c.seen(('hand', q, 'complete'))
                if prev[0] in SLOT_CMDS:
                    c.expect(g.slot is not None, 'no open slot', cmd=prev)
                    c.eq(prev[0] == 'Query', g.slot == 0,
                         'command that opens a round', slot=g.slot)
                    rnd = r.inventory_round
                    c.eq((rnd.index, rnd.slot.index), (g.round, g.slot),
                         'round and slot of the reader')
                if rng.random() < p_off:
                    done = g.done
                    r.turn_off()
                    on = False
                    for n in lis.take():
                        g.feed(*n, q=q)
                    c.expect(g.round is None and g.slot is None,
                             'switching off leaves a round or slot open')
                    c.expect(g.done != done and g.done[1] <= 2 ** q,
                             'slots of a round cut by power off')
                    c.eq(r.inventory_round, None, 'round of a reader that is '
                         'off')
                    c.seen(('hand', q, g.done[1]))
                    c.count('cuts')
                    prev = command_of(c, p, r.turn_on(), 'power on')
                    c.eq(prev[0], 'Query', 'first command')
                    on = True
                    continue
                if rng.random() < (.2 if q < 7 else .02):
                    f = r.receive(tag_frame(p, GOOD[prev[0]], 3))
                else:
                    f = r.timeout()
                prev = command_of(c, p, f, prev)
    kinds = ['friendly', 'crowded', 'adaptive', 'flicker', 'adaptive', 'any',
             'shortlived', 'antennas', 'ties']
    for rec, kind, case in W.sweep(c, c.n(22), kinds, events=1500,
                                   snaps=False):
        log, p = rec.log, case.p
        g = Grammar(c)
        # by time: notifications, exchanges, switching
        items = list(log.listeners)
        queries = [x for x in log.exchanges if x.cmd[0] == 'Query']
        opened = []
        offs = {t for t, on in log.on_off if not on}
        for t, k, i, j in items:
            g.feed(k, i, j, t=t)
            if k == 'slot+' and j == 0:
                opened.append((t, i))
            if k == 'round-':
                n = g.done[1]
                c.seen((p['q'], n, t in offs))
        c.eq(len(opened), len(queries), 'rounds and round-opening commands')
        counts = {}
        for t, k, i, j in items:
            if k == 'slot+':
                counts[i] = counts.get(i, 0) + 1
        closed = {i: t for t, k, i, j in items if k == 'round-'}
        # Q at the beginning and at the end of each opening slot
        qs, cut = {}, set()
        for x in log.exchanges:
            i, j = x.round
            if j == 0:
                qs.setdefault(i, []).append(x.reader.q)
                if x.ended_by == 'next':
                    qs[i].append(x.end_reader.q)
            if x.cmd[0] == 'Query':
                c.eq(j, 0, 'slot of a round-opening command')
                c.eq(x.cmd[7], x.reader.q, 'Q in the round-opening command')
            elif x.cmd[0] == 'QueryRep':
                c.expect(j > 0, 'slot of a QueryRep')
            if x.ended_by != 'next':
                cut.add(i)
            c.count('slots', x.cmd[0] in ('Query', 'QueryRep'))
        for i, n in counts.items():
            bound = {2 ** qs[i][0], 2 ** qs[i][-1]}
            if i in closed and i not in cut:
                c.expect(n in bound, 'slots of a round', round=i, got=n,
                         q=qs[i], adjust=p['adjust'])
                c.count('rounds in runs')
                if len(set(qs[i])) > 1:
                    c.count('adapted rounds')
            else:
                c.expect(n <= max(2 ** q for q in qs[i]),
                         'slots of a round', round=i, got=n, q=qs[i])
        if log.on_off and not log.on_off[-1][1]:
            c.expect(g.round is None and g.slot is None,
                     'a round is open while the reader is off')
        for t in offs:
            c.expect(any(a == t and k == 'round-' for a, k, _, _ in items),
                     'switching off does not close the round', t=t)
            c.count('cuts in runs')
    c.need('rounds', 300)
    c.need('cuts', 30)
    c.need('rounds in runs', 100)


@check('R03', 'readers driven by hand through rounds of Q 0..3 with power '
              'cycles and 1..40 rounds per flag, and whole runs; flag of '
              'every round-opening command; distinct = (strategy, rounds '
              'per flag, round of the power cycle, flag)')
def r03(c):
    rng = c.rng

    def want(p, k):
        if p['strategy'] == 'switch':
            return 'A' if (k // p['rounds_per_target']) % 2 == 0 else 'B'
        return p['target']

    for i in range(c.n(260)):
        far = i in (5, 6)       # thousands of rounds without a break
        r, p = make_reader(
            rng, q=0 if far else rng.choice([0, 0, 0, 1, 2, 3]),
            rounds_per_target=rng.choice([1, 3, 1000]) if far else
            rng.choice([1, 1, 2, 3, 4, 7, 10, 40, 100]),
            strategy=rng.choice(['switch', 'switch', 'const']))
        trace = []
        c.begin(dict(p={k: repr(v) for k, v in p.items()}, flags=trace))
        p_off = 0 if far else rng.choice([0, .01, .05])
        with quiet():
            k = 0
            prev = command_of(c, p, r.turn_on(), 'power on')
            for _ in range(24000 if far else rng.choice([40, 150, 400])):
                del trace[:-100]
                if prev[0] == 'Query':
                    trace.append(prev[6])
                    c.eq(prev[6], want(p, k), 'flag of a round', k=k,
                         rounds_per_target=p['rounds_per_target'],
                         strategy=p['strategy'], configured=p['target'])
                    c.eq(X.FLAG[r.target], prev[6], 'flag of the reader')
                    c.seen((p['strategy'], p['rounds_per_target'], k,
                            prev[6], p['target']))
                    c.count('rounds')
                    k += 1
                if rng.random() < p_off:
                    r.turn_off()
                    prev = command_of(c, p, r.turn_on(), 'power on')
                    k = 0
                    trace.append('power')
                    c.count('power cycles')
                    continue
                if rng.random() < .15:
                    f = r.receive(tag_frame(p, GOOD[prev[0]], 3))
                else:
                    f = r.timeout()
                prev = command_of(c, p, f, prev)
    for rec, kind, case in W.sweep(
            c, c.n(24), ['any', 'adaptive', 'flicker', 'friendly',
                         'persistent'], events=1500, snaps=False,
            force=lambda r: dict(q=r.choice([0, 0, 1, 2]),
                                 on=r.choice([.02, .05, .2]))):
        k, p, prev = 0, case.p, None
        for x in rec.log.exchanges:
            if prev is None or prev.ended_by != 'next':
                k = 0
                c.eq(x.cmd[0], 'Query', 'first command after power on')
            if x.cmd[0] == 'Query':
                c.eq(x.cmd[6], want(p, k), 'flag of a round', k=k,
                     rounds_per_target=p['rounds_per_target'],
                     strategy=p['strategy'], configured=p['target'],
                     t=x.start)
                c.count('rounds in runs')
                c.seen((p['strategy'], p['rounds_per_target'], k, x.cmd[6]))
                k += 1
            prev = x
    c.need('rounds', 2000)
    c.need('power cycles', 50)
    c.need('rounds in runs', 500)


# --------------------------------------------------------------------------
# R04
# --------------------------------------------------------------------------
def roundings(x):
    f = math.floor(x)
    if abs(x - f - .5) < 1e-9:
        return {f, f + 1}
    return {round(x)}


class Adaptation:
    """Q before and after every event."""

    def __init__(self, c):
        self.c = c

    def __call__(self, rec, e):
        c, p = self.c, rec.case.p
        r0, r1 = e.r0, e.r1
        c.expect(0 <= r1.q <= 15 and r1.q == int(r1.q), 'Q of the reader',
                 q=r1.q)
        for tag in e.present1:
            q = e.tags1[tag].q
            c.expect(q is None or 0 <= q <= 15, 'Q of a tag', q=q)
        new = e.tr1 if e.tr1 is not e.tr0 else None
        cmd = None
        if new is not None:
            cmd = R.decode(new.command.command.encode())
        info = dict(t=e.t, q=r0.q, q_fp=r0.q_fp, new_q=r1.q,
                    new_q_fp=r1.q_fp, delta=p['delta'],
                    command=cmd, event=e.name)
        adj = cmd is not None and cmd[0] == 'QueryAdjust'
        if not p['adjust']:
            c.eq(r1.q, p['q'], 'Q without adaptation', **info)
            c.expect(not adj, 'adjust command without adaptation', **info)
            c.count('without adaptation')
            return
        old = e.tr0
        ended = old is not None and new is not None and r0.power is not None
        if not ended:
            c.eq((r1.q, r1.q_fp), (r0.q, r0.q_fp), 'Q changes outside '
                 'exchanges', **info)
            c.expect(not adj, 'adjust command out of place', **info)
            return
        prev = R.decode(old.command.command.encode())
        n, d = len(old.replies), p['delta']
        info.update(after=prev, replies=n, received=len(e.received))
        slot_cmd = prev[0] in SLOT_CMDS
        up = min(15.0, r0.q_fp + d)
        down = max(0.0, r0.q_fp - d)
        if not slot_cmd or e.received:
            allowed = [r0.q_fp]
            what = 'q_fp after an exchange that is neither empty nor a ' \
                'collision'
        elif n > 1:
            allowed = [up]
            what = 'q_fp after a collision'
            c.count('collisions')
        elif n == 0:
            allowed = [down]
            what = 'q_fp after an empty slot'
            c.count('empty')
        else:       # a reply that was not understood
            allowed = [r0.q_fp, down]
            what = 'q_fp after a reply that was not received'
            c.count('lost')
        if prev[0] == 'QueryAdjust' or (n > 1 and r0.q >= 15) or \
                (n == 0 and r0.q <= 0):
            allowed = allowed + [r0.q_fp]
        c.expect(any(isclose(r1.q_fp, a, 1e-9, 1e-9) for a in allowed), what,
                 admissible=allowed, **info)
        c.expect(-1e-9 <= r1.q_fp <= 15 + 1e-9 or r1.q_fp == r0.q_fp,
                 'floating Q out of range', **info)
        step = r1.q - r0.q
        c.expect(step in (-1, 0, 1), 'Q moves by more than one', **info)
        moved = not isclose(r1.q_fp, r0.q_fp, 1e-12, 1e-12)
        if step:
            c.expect(adj, 'Q changes without an adjust command', **info)
            c.eq(cmd[2], step, 'direction of the adjust command', **info)
            c.expect(r1.q in roundings(r1.q_fp), 'Q is not the rounding of '
                     'the floating Q', **info)
            c.count('up' if step > 0 else 'down')
        else:
            c.expect(not adj, 'adjust command without a change of Q', **info)
            if moved:
                c.expect(any(abs(v - r0.q) != 1
                             for v in roundings(r1.q_fp)),
                         'Q does not follow the floating Q', **info)
        c.seen((prev[0], min(n, 2), bool(e.received), r0.q, step))


def forced_replies(c, rng):
    """Makes the tags collide or keep silent, whatever slot they drew."""
    phase = [0, 'real']
    real = obj.Tag.receive

    def receive(self, frame):
        ret = real(self, frame)
        cmd = frame.command
        if self.power is None:
            return ret
        if isinstance(cmd, (std.Query, std.QueryRep, std.QueryAdjust)):
            tags = [t for t in self.kernel.context.tags
                    if t.power is not None]
            if tags and self is tags[0]:
                phase[0] -= 1
                if phase[0] <= 0:
                    phase[:] = [rng.choice([3, 10, 40, 150, 400]),
                                rng.choice(['all', 'all', 'none', 'none',
                                            'one', 'mixed', 'real'])]
                phase[2:] = [phase[1] if phase[1] != 'mixed' else rng.choice(
                    ['all', 'none', 'one'])]
            mode = phase[2] if len(phase) > 2 else 'real'
            if mode == 'all' or mode == 'one' and self is tags[-1]:
                return std.TagFrame(std.create_tag_preamble(
                    self.encoding, self.trext),
                    std.QueryReply(rng.randrange(65536)))
            if mode != 'real':
                return None
        return ret
    return receive


@check('R04', 'runs with adaptation on and off, steps 0.05..1, start values '
              'that differ from Q, crowds of tags, and tags forced to '
              'collide, keep silent or reply alone for long so that Q '
              'covers 0..15; Q, floating Q and adjust command at every '
              'event; distinct = (command, outcome, Q, change)')
def r04(c):
    rng = c.rng
    seen_q = set()

    class Seen(Adaptation):
        def __call__(self, rec, e):
            Adaptation.__call__(self, rec, e)
            if rec.case.p['adjust']:
                seen_q.add(int(e.r1.q))

    def force(r):
        f = dict(adjust=r.random() < .85)
        if r.random() < .4:
            f['q_fp'] = r.choice([0, 1.0, 3.5, 15, r.uniform(0, 15)])
        return f
    for rec, kind, case in W.sweep(
            c, c.n(14), ['adaptive', 'crowded', 'adaptive', 'any', 'fading',
                         'flicker', 'shortlived'],
            lambda: [Seen(c)], 1500, force):
        pass
    real = obj.Tag.__dict__['receive']
    for i in range(c.n(12)):
        def high(r):
            return dict(W.friendly(r), num_tags=3, gap=0.0, gaps=[0.0] * 5,
                        life=5.0, speed=.1, dist=0.2, adjust=i % 6 != 5,
                        sel='ALL', q=r.choice([0, 2, 7, 13, 14, 15]),
                        q_fp=r.choice([None, None, None, 15, 14.4, 0.4]),
                        delta=r.choice([.1, .2, .35, .5, 1.0, 1.0,
                                        r.uniform(.05, 1)]), update=.05,
                        on=r.choice([2.0, .3]))
        obj.Tag.receive = forced_replies(c, rng)
        try:
            for _ in W.sweep(c, 1, ['any'], lambda: [Seen(c)], 1000, high):
                pass
        finally:
            obj.Tag.receive = real
    c.counters['Q values of the reader'] = len(seen_q)
    c.need('up', 30)
    c.need('down', 30)
    c.need('collisions', 300)
    c.need('empty', 300)
    c.need('without adaptation', 300)
    c.need('Q values of the reader', 8)


# --------------------------------------------------------------------------
# R05: antennas
# --------------------------------------------------------------------------
class Antennas:
    """Which antenna the reader works with, event by event."""

    def __init__(self, c):
        self.c, self.due, self.index, self.since = c, None, 0, None

    def __call__(self, rec, e):
        c, p = self.c, rec.case.p
        n, step = p['antennas'], p['antenna_switch']
        info = dict(t=e.t, event=e.name, antennas=n, interval=step,
                    before=e.r0.antenna, after=e.r1.antenna, due=self.due)
        tol = 1e-9 * max(1.0, e.t)
        c.eq(e.r0.antenna, self.index, 'antenna changes between events',
             **info)
        was, now = e.r0.power is not None, e.r1.power is not None
        if self.due is not None and e.t > self.due + tol:
            c.fail('the antenna was not switched in time', **info)
        if now and not was:
            want = 0 if p['first_antenna'] else self.index
            c.eq(e.r1.antenna, want, 'antenna after switching on', **info)
            self.due = e.t + step if n > 1 else None
            c.count('switched on')
            if self.index:
                c.count('kept antenna' if want else 'reset antenna')
        elif e.r1.antenna != e.r0.antenna:
            c.expect(now and was, 'the antenna of a reader that is off '
                     'changes', **info)
            c.expect(self.due is not None and abs(e.t - self.due) <= tol,
                     'the antenna changes at the wrong time', **info)
            c.eq(e.r1.antenna, (self.index + 1) % n, 'next antenna', **info)
            self.due = e.t + step
            c.count('switches')
            if e.r1.antenna == 0:
                c.count('turns completed')
            if e.tr0 is not None and e.tr0.replies:
                c.count('switches while a tag answers')
        if not now:
            self.due = None
        self.index = e.r1.antenna
        c.seen((n, e.r0.antenna, e.r1.antenna, was, now,
                round(e.t * 1e6) % 1000))


@check('R05', 'runs with one to five antennas, switching intervals from '
              'shorter than an exchange to longer than the time on, power '
              'cycles; antenna before and after every event; attached '
              'antennas; distinct = (antennas, change, power, time)')
def r05(c):
    rng = c.rng
    for i in range(c.n(200)):
        # antennas in the order they were attached, selected in turn
        r, _ = make_reader(rng, antennas=1)
        n = rng.randint(1, 6)
        c.begin(dict(attached=n))
        ants = [r.antenna] + [X.obj.Antenna() for _ in range(n)]
        for k, a in enumerate(ants[1:], 1):
            c.eq(r.attach_antenna(a), k, 'index of an attached antenna')
        c.eq(r.num_antennas, n + 1, 'number of antennas')
        for k, a in enumerate(ants):
            c.expect(r.get_antenna(k) is a and a.index == k,
                     'attached antenna', k=k)
        at = 0
        r.always_start_with_first_antenna = first = rng.random() < .5
        with quiet():
            for _ in range(rng.randint(1, 25) if i else 30000):
                if rng.random() < .7:
                    at = (at + 1) % (n + 1)
                    c.expect(r.select_next_antenna() is ants[at],
                             'selected antenna', at=at)
                elif r.power is None:
                    r.turn_on()
                    at = 0 if first else at
                else:
                    r.turn_off()
                c.expect(r.antenna is ants[at] and r.antenna_index == at,
                         'antenna in use', at=at, got=r.antenna_index)
        c.count('by hand')

    def force(rng):
        f = dict(antennas=rng.choice([1, 2, 2, 3, 5]),
                 antenna_switch=rng.choice([.01, .003, .05, .1, .0007, 1.0]),
                 first_antenna=rng.random() < .5)
        if rng.random() < .7:
            f.update(switch_power=True, on=rng.choice([.02, .05, .013, .1]),
                     off=rng.choice([.001, .01, .03]))
        if rng.random() < .2:
            # the next antenna is due exactly when the reader switches off
            f.update(switch_power=True, on=.03, off=.01, antenna_switch=.01)
        return f
    for rec, kind, case in W.sweep(
            c, c.n(36), ['friendly', 'crowded', 'any', 'adaptive',
                         'shortlived', 'fading'], lambda: [Antennas(c)],
            1500, force, snaps=False):
        for x in rec.log.exchanges[:1]:
            c.eq(x.reader.antenna, 0, 'first antenna of a run')
    c.need('switches', c.n(36) * 2)
    c.need('switched on', c.n(36))
    c.need('turns completed', 10)
    c.need('kept antenna', 1)
    c.need('reset antenna', 1)


# --------------------------------------------------------------------------
# R06: power cycle
# --------------------------------------------------------------------------
class PowerCycle:
    def __init__(self, c):
        self.c, self.on, self.at = c, False, 0.0

    def __call__(self, rec, e):
        c, p = self.c, rec.case.p
        info = dict(t=e.t, event=e.name, on=self.on, since=self.at,
                    periodic=p['switch_power'], on_time=p['on'],
                    off_time=p['off'])
        now = e.r1.power is not None
        want = None
        if self.on:
            want = self.at + p['on'] if p['switch_power'] else None
        elif self.at > 0:
            want = self.at + p['off']
        tol = 1e-9 * max(1.0, e.t)
        if e.r0.power is not None or self.on:
            c.eq(e.r0.power is not None, self.on, 'the reader switches '
                 'between events', **info)
        if now == self.on:
            if want is not None and (self.on or self.at > 0):
                c.expect(e.t <= want + tol, 'the reader does not switch '
                         'on' if not self.on else 'the reader does not '
                         'switch off', **info)
        else:
            if not self.on and not len(rec.log.on_off) > 1:
                c.eq(e.t, 0.0, 'time of first switching on', **info)
            else:
                c.expect(want is not None and abs(e.t - want) <= tol,
                         'time of switching ' + ('off' if self.on else 'on'),
                         want=want, **info)
                c.count('switched on' if now else 'switched off')
            self.on, self.at = now, e.t
        if now:
            c.eq(e.r1.power, p['power'], 'power of a reader that is on',
                 **info)
            c.expect(e.tr1 is not None, 'a reader that is on is silent',
                     **info)
            c.close(e.r1.t_on, self.at, 'time of the last switching on',
                    **info)
        else:
            c.eq(e.r1.state, X.obj.Reader.State.OFF, 'state of a reader '
                 'that is off', **info)
            c.expect(e.tr1 is None, 'an exchange of a reader that is off',
                     **info)
        c.seen((p['switch_power'], now, round((e.t - self.at) * 1e7)))


@check('R06', 'runs with periodic power of random, tiny and tied durations '
              'and with constant power; state after every event; readers '
              'driven by hand; distinct = (mode, on, time since switching)')
def r06(c):
    rng = c.rng
    Mode = X.obj.Reader.PowerControlMode
    for i in range(c.n(150)):
        r, p = make_reader(rng)
        r.power_on_duration = rng.choice([2.0, .1, rng.uniform(1e-4, 9)])
        r.power_off_duration = rng.choice([.5, .1, rng.uniform(1e-4, 9)])
        r.power_control_mode = rng.choice([Mode.ALWAYS_ON, Mode.PERIODIC])
        c.begin(dict(mode=str(r.power_control_mode),
                     on=r.power_on_duration, off=r.power_off_duration))
        if i % 10 == 3:
            r.max_power = rng.choice([0.0, 0, -5.5])
        on = False
        with quiet():
            for k in range(rng.randint(1, 30) if i else 25000):
                what = rng.choice(['on', 'off', 'timeout'])
                if not on and k and rng.random() < .2:
                    # a reader in use takes other settings
                    r.max_power = rng.choice([0.0, 31.5, rng.uniform(-9, 40)])
                    if rng.random() < .5:
                        r.power_on_duration = rng.uniform(1e-4, 9)
                        r.power_off_duration = rng.uniform(1e-4, 9)
                    c.count('other settings of a reader in use')
                if what == 'timeout':
                    if not on and r.power_control_mode is Mode.PERIODIC:
                        c.eq(r.state.get_timeout(r), r.power_off_duration,
                             'how long a reader stays off')
                    f = r.timeout()
                    c.expect(f is not None, 'no command after a timeout')
                    on = True       # a reader that is off switches on
                else:
                    f = r.turn_on() if what == 'on' else r.turn_off()
                    if what == 'off' or on:
                        c.expect(f is None, 'a command of a reader that '
                                 'is switched ' + what, was_on=on)
                    else:
                        c.eq(R.decode(f.command.encode())[0], 'Query',
                             'first command')
                    on = what == 'on'
                c.eq(r.power, r.max_power if on else None, 'power', on=on)
                c.eq(r.state is X.obj.Reader.State.OFF, not on,
                     'state OFF of the reader')
                if not on:
                    c.eq((r.inventory_round, r.last_rn), (None, None),
                         'round and number of a reader that is off')
                c.count('by hand')

    def force(rng):
        f = dict(switch_power=rng.random() < .8)
        if rng.random() < .1:
            f.update(power=0.0)
        if rng.random() < .7:
            f.update(on=rng.choice([.02, .05, .013, .1, .0011, 1e-4]),
                     off=rng.choice([.001, .01, .03, 1e-5, .1]))
        return f
    for rec, kind, case in W.sweep(
            c, c.n(40), ['friendly', 'flicker', 'ties', 'any', 'adaptive',
                         'shortlived', 'antennas', 'persistent'],
            lambda: [PowerCycle(c)], 1200, force, snaps=False):
        c.expect(rec.log.on_off and rec.log.on_off[0] == (0.0, True),
                 'the reader is switched on when the run starts')
    c.need('switched off', c.n(40) * 2)
    c.need('switched on', c.n(40) * 2)
