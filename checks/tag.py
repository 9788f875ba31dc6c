"""G01..G03: the tag as a state machine."""
import collections
import contextlib
import math

import numpy as np
import scipy.stats as st

from vlib import refstd as R
from vlib import rfidcases as W
from vlib import rfidrec as X
from vlib.core import check, quiet
from vlib.stub import StubKernel

std, obj = X.std, X.obj
S = obj.Tag.State
PRE = std.ReaderPreamble(6.25e-6, 18.75e-6, 50e-6)
SYNC = std.ReaderSync(6.25e-6, 18.75e-6)


def new_tag(rng, sensitivity=-18.0):
    model = obj.Model()
    kernel = StubKernel(model)
    tag = obj.Tag(rng.randrange(1000), kernel)
    tag.sensitivity = sensitivity
    tag.pos = np.array([1.0, 2.0, 3.0])
    tag.velocity = 1.0
    tag.direction = np.array([0, 1, 0])
    tag.antenna.direction_theta = np.array([0, 0, 1])
    tag.epc, tag.tid = 'AAAA' + '0' * 20, 'AAAA' + '1' * 12
    model.tags.append(tag)
    model.statistics.create_tag_record(tag)
    return tag, kernel


def power(tag, time, value):
    tag.kernel.time = time
    tag.set_power(time, value)


def frame_of(cmd, trcal=50e-6):
    if isinstance(cmd, std.Query):
        return std.ReaderFrame(
            std.ReaderPreamble(6.25e-6, 18.75e-6, trcal), cmd)
    return std.ReaderFrame(SYNC, cmd)


def query_until_reply(tag, rng, q=0):
    """Open a round the tag joins, and get its RN16."""
    for target in ('A', 'B', 'A', 'B'):
        f = tag.receive(frame_of(std.Query(
            std.DivideRatio.DR_8, std.TagEncoding.M4, False,
            std.SelFlag.ALL, std.Session.S0, X.TARGETS[target], q)))
        if f is not None:
            return f
    return None


class RefTag:
    """Reference inventory state machine; random draws are taken from the
    observed tag and checked for range."""

    def __init__(self, c, sens, persist, data):
        self.c = c
        self.sens = sens
        self.persist = persist          # of sessions 1..3
        self.data = data                # () -> dict of banks
        self.state, self.flags = S.OFF, ['A'] * 4
        self.slot = self.rn = self.q = None
        self.active = self.idle = None
        self.m = self.trext = self.f = None
        self.off_since = None
        self.fresh = True

    # -- power --
    def powered_on(self, t):
        self.flags[0] = 'A'
        for s in (1, 2, 3):
            if not self.fresh and t - self.off_since > self.persist[s]:
                self.flags[s] = 'A'
        self.fresh = False
        self.state, self.active, self.slot, self.rn = S.READY, None, None, None

    def powered_off(self, t):
        self.state, self.active, self.off_since = S.OFF, None, t
        self.slot = self.rn = None

    def set_power(self, t, p):
        if self.state is S.OFF:
            if p is not None and p > self.sens:
                self.powered_on(t)
        elif p is None or p < self.sens:
            self.powered_off(t)

    # -- commands --
    def invert(self):
        a = self.active
        self.flags[a] = 'B' if self.flags[a] == 'A' else 'A'

    def step(self, cmd, dr_trcal, tag, frame):
        """Returns nothing, checks the observed reply and state."""
        c = self.c
        kind = None         # expected kind of reply
        name = cmd[0]
        new_rn = False
        if self.state is S.OFF:
            pass
        elif name == 'Query':
            _, dr, m, trext, sel, session, target, q, _ = cmd
            if self.state in (S.ACKNOWLEDGED, S.SECURED):
                self.invert()
            if self.flags[session] != target or sel == 'SL':
                self.state = S.READY
            else:
                self.active, self.m, self.trext, self.q = session, m, trext, q
                self.f = R.blf(dr, dr_trcal)
                kind, new_rn = self.draw(tag)
        elif name == 'QueryRep':
            if cmd[1] != self.active:
                pass
            elif self.state is S.ARBITRATE:
                if self.slot is not None:
                    self.slot -= 1
                    if self.slot == 0:
                        self.state, kind, new_rn = S.REPLY, 'rn16', True
            elif self.state is S.REPLY:
                self.state, self.slot = S.ARBITRATE, None
            elif self.state in (S.ACKNOWLEDGED, S.SECURED):
                self.invert()
                self.state = S.READY
        elif name == 'QueryAdjust':
            if cmd[1] != self.active:
                pass
            elif self.state in (S.ARBITRATE, S.REPLY):
                q = self.q + cmd[2]
                if 0 <= q <= 15:
                    self.q = q
                    kind, new_rn = self.draw(tag)
                else:       # Q stays; the tag may draw again or not
                    old = self.slot if self.state is S.ARBITRATE else 0
                    if tag.slot_counter == 0:
                        self.state, kind, new_rn = S.REPLY, 'rn16', True
                        self.slot = 0
                    else:
                        self.state = S.ARBITRATE
                        v = tag.slot_counter
                        c.expect(v == old or 0 <= v < 2 ** self.q or
                                 old is None, 'slot after an adjust command '
                                 'that Q cannot follow', got=v)
                        self.slot = v if 0 < v < 2 ** self.q else None
            elif self.state in (S.ACKNOWLEDGED, S.SECURED):
                self.invert()
                self.state = S.READY
        elif name == 'Ack':
            if self.state is S.REPLY:
                if cmd[1] == self.rn:
                    self.state, kind = S.ACKNOWLEDGED, 'epc'
                else:
                    self.state, self.slot = S.ARBITRATE, None
        elif name == 'ReqRN':
            if self.state in (S.ACKNOWLEDGED, S.SECURED) and \
                    cmd[1] == self.rn:
                self.state, kind, new_rn = S.SECURED, 'handle', True
        elif name == 'Read':
            _, bank, ptr, cnt, rn, _ = cmd
            if self.state is S.SECURED and rn == self.rn and \
                    self.data()[bank] is not None:
                kind = 'data'
        self.compare(cmd, tag, frame, kind, new_rn)

    def draw(self, tag):
        v = tag.slot_counter
        self.c.expect(isinstance(v, (int, np.integer)) and
                      0 <= v < 2 ** self.q, 'slot out of range', slot=v,
                      q=self.q)
        self.slot = int(v)
        if v == 0:
            self.state = S.REPLY
            return 'rn16', True
        self.state = S.ARBITRATE
        return None, False

    def compare(self, cmd, tag, frame, kind, new_rn):
        c = self.c
        info = dict(command=cmd, state=self.state.name, slot=self.slot,
                    flags=list(self.flags), session=self.active)
        got = None if frame is None else X.reply_kind(frame.reply)
        c.eq(got, kind, 'reply of the tag', tag_state=tag.state.name, **info)
        if kind is not None:
            r = frame.reply
            if new_rn:
                c.expect(0 <= r.rn <= 0xFFFF, 'number out of range', rn=r.rn)
                self.rn = int(r.rn)
            if kind in ('rn16', 'handle'):
                c.eq(int(r.rn), int(tag.rn), 'number sent', **info)
            n = 0
            if kind == 'epc':
                n = len(self.data()[1])
                c.eq(bytes(r.epc), self.data()[1], 'identifier sent', **info)
            if kind == 'data':
                _, bank, ptr, cnt, rn, _ = cmd
                want = self.data()[bank][2 * ptr:2 * (ptr + cnt)]
                n = len(want)
                c.eq(bytes(r.memory), want, 'memory sent', **info)
                c.eq(int(r.rn), self.rn, 'handle in the reply', **info)
            bits = R.reply_bits(kind, n)
            c.close(frame.get_duration(tag.blf),
                    R.tag_frame_blf(bits, self.f, self.m, self.trext),
                    'duration of the reply (encoding, preamble, link '
                    'frequency of the round)', m=self.m, trext=self.trext,
                    **info)
            c.count('replies')
        self.check_state(tag, info)

    def check_state(self, tag, info=None):
        c, info = self.c, info or {}
        c.eq(tag.state.name, self.state.name, 'state of the tag', **info)
        if self.state is S.OFF:
            c.eq(tag.power, None, 'power of an unpowered tag', **info)
            self.idle = None
            return
        flags = [X.FLAG.get(f, '?') for f in (tag.s0, tag.s1, tag.s2, tag.s3)]
        c.eq(flags, self.flags, 'session flags', tag_state=tag.state.name,
             command=info.get('command'))
        if self.state is S.READY and self.active is None:
            # no round joined since power-up: nothing moves the counter
            c.expect(self.idle in (None, int(tag.slot_counter)),
                     'a command of a round it has not joined moves the slot '
                     'counter of the tag', before=self.idle,
                     after=tag.slot_counter, **info)
            self.idle = int(tag.slot_counter)
        else:
            self.idle = None
        if self.state in (S.ARBITRATE, S.REPLY):
            c.eq(tag.q, self.q, 'Q of the tag', **info)
            c.expect(0 <= tag.q <= 15, 'Q out of range')
            if self.slot is not None:
                c.eq(int(tag.slot_counter), self.slot, 'slot counter', **info)
            c.eq((tag.encoding, bool(tag.trext)),
                 (X.MS[self.m], self.trext), 'encoding of the round', **info)
            c.close(tag.blf, self.f, 'link frequency of the round')
        if self.state in (S.REPLY, S.ACKNOWLEDGED, S.SECURED):
            c.eq(int(tag.rn), self.rn, 'number of the tag', **info)


def banks_of(tag):
    def conv(x):
        return None if x is None else bytes.fromhex(x)
    return {0: None, 1: conv(tag.epc), 2: conv(tag.tid),
            3: conv(tag.user_mem)}


BANKS = [std.MemoryBank.RESERVED, std.MemoryBank.EPC, std.MemoryBank.TID,
         std.MemoryBank.USER]


def real_command(cmd):
    k = cmd[0]
    if k == 'Query':
        _, dr, m, trext, sel, s, t, q, crc = cmd
        return std.Query(X.DRS[dr], X.MS[m], trext, X.SELS[sel], X.SESS[s],
                         X.TARGETS[t], q, crc)
    if k == 'QueryRep':
        return std.QueryRep(X.SESS[cmd[1]])
    if k == 'QueryAdjust':
        return std.QueryAdjust(X.SESS[cmd[1]], cmd[2])
    if k == 'Ack':
        return std.Ack(cmd[1])
    if k == 'ReqRN':
        return std.ReqRN(cmd[1])
    return std.Read(BANKS[cmd[1]], cmd[2], cmd[3], cmd[4])


def pick_rn(rng, ref, others):
    k = rng.random()
    if k < .75 and ref.rn is not None:
        return ref.rn
    if k < .85 and others:
        return rng.choice(others)
    if k < .95 and ref.rn is not None:
        return (ref.rn + rng.choice([1, -1, 256])) % 65536
    return rng.choice([0, 0xFFFF, rng.randrange(65536)])


class UnknownCommand(std.Command):
    def __init__(self):
        super().__init__(std.CommandCode.ACK)
        self.rn = self.session = self.q = 0

    def encode(self):
        return '01'


def other_settings(c, rng, tag, ref, trace):
    """A tag in use takes other settings: persistence while it is powered,
    memory and sensitivity while it is not."""
    if ref.state is S.OFF:
        tag.epc = rng.randbytes(rng.choice([2, 12, 30])).hex().upper()
        tag.tid = rng.choice([None, rng.randbytes(8).hex().upper()])
        tag.user_mem = rng.choice([None, rng.randbytes(6).hex()])
        tag.sensitivity = ref.sens = rng.choice([-18.0, -5.0, -40.5])
    else:
        for s in (1, 2, 3):
            ref.persist[s] = rng.choice([0.0, 1 / 64, 1 / 32, 1 / 8, 2.0])
        tag.s1_persistence, tag.s2_persistence, tag.s3_persistence = \
            ref.persist[1], ref.persist[2], ref.persist[3]
    trace.append(('settings', tag.epc, tag.tid, tag.user_mem,
                  tag.sensitivity, dict(ref.persist)))
    c.count('other settings of a tag in use')


def drive(c, rng, steps, mix):
    """One tag, random commands and power changes."""
    tag, kernel = new_tag(rng, rng.choice([-18.0, -5.0, -40.5]))
    tag.epc = rng.randbytes(rng.choice([2, 12, 12, 62])).hex().upper()
    tag.tid = rng.choice([None, rng.randbytes(2 * rng.choice(
        [1, 4, 64])).hex().upper()])
    tag.user_mem = rng.choice([None, None, rng.randbytes(
        2 * rng.choice([1, 16])).hex()])
    U = 1 / 64
    persist = {0: None}
    for s in (1, 2, 3):
        persist[s] = rng.choice([0.0, U, 2 * U, 8 * U, 128 * U])
    tag.s1_persistence, tag.s2_persistence, tag.s3_persistence = \
        persist[1], persist[2], persist[3]
    ref = RefTag(c, tag.sensitivity, persist, lambda: banks_of(tag))
    now = rng.choice([0.0, 5.0])
    trcal = rng.choice([31.25e-6, 50e-6, 75e-6])
    session = rng.randrange(4)
    trace = collections.deque(maxlen=400)
    c.begin(dict(sensitivity=tag.sensitivity, persistence=persist,
                 trcal=trcal, trace=trace))
    with quiet():
        ref.check_state(tag)
        if rng.random() < .5:
            c.eq(tag.receive(frame_of(std.Query())), None,
                 'an unpowered tag replies')
        power(tag, now, tag.sensitivity + 3)
        ref.set_power(now, tag.sensitivity + 3)
        ref.check_state(tag)
        old_rns = []
        for _ in range(steps):
            k = rng.random()
            now += U * rng.choice([0, 0, 1])
            if k < mix['power'] or ref.state is S.OFF and k < .1:
                v = rng.choice([None, None, tag.sensitivity,
                                tag.sensitivity - 1e-9,
                                tag.sensitivity + 1e-9,
                                tag.sensitivity - 20, tag.sensitivity + 20,
                                -math.inf])
                now += U * rng.choice([0, 1, 2, 3, 8, 9, 128, 129])
                trace.append(('power', now, v))
                was = ref.state
                if rng.random() < .1:
                    other_settings(c, rng, tag, ref, trace)
                if ref.state is S.OFF and rng.random() < .08:
                    # an unpowered tag set up again is as good as new
                    tag.setup(now)
                    trace.append(('setup', now))
                    ref.flags, ref.off_since = ['A'] * 4, now
                    ref.check_state(tag)
                    c.eq([X.FLAG.get(f, '?') for f in (
                        tag.s0, tag.s1, tag.s2, tag.s3)], ref.flags,
                        'session flags of a tag set up again')
                    c.count('set up again')
                power(tag, now, v)
                ref.set_power(now, v)
                ref.check_state(tag, dict(power=v))
                if ref.state is not S.OFF:
                    c.close(tag.power, v, 'power kept', abs_=1e-12)
                if ref.state is S.READY and was is S.OFF:
                    c.count('power ups')
                    c.seen(('up', tuple(ref.flags)))
                continue
            if rng.random() > mix['steady']:
                session = rng.randrange(4)
            s = session if rng.random() < .93 else rng.randrange(4)
            if ref.state in (S.REPLY, S.ACKNOWLEDGED, S.SECURED) and \
                    rng.random() < .6:
                kind = {S.REPLY: 'Ack', S.ACKNOWLEDGED: rng.choice(
                    ['ReqRN', 'ReqRN', 'QueryRep', 'Query']),
                    S.SECURED: rng.choice(['Read', 'Read', 'ReqRN',
                                           'QueryRep', 'Query',
                                           'QueryAdjust'])}[ref.state]
            else:
                kind = rng.choice(mix['commands'])
            rn = pick_rn(rng, ref, old_rns)
            if kind == 'Query':
                target = rng.choice([ref.flags[s], ref.flags[s], 'A', 'B'])
                cmd = (kind, rng.choice(['8', '64/3']),
                       rng.choice([1, 2, 4, 8]), rng.random() < .5,
                       rng.choice(['ALL', 'ALL', 'ALL', '~SL', 'SL']), s,
                       target, rng.choice([0, 0, 1, 1, 2, 3, 4, 8, 15]),
                       rng.randrange(32))
            elif kind == 'QueryRep':
                cmd = (kind, s)
            elif kind == 'QueryAdjust':
                cmd = (kind, s, rng.choice([-1, 0, 1, 1, -1]))
            elif kind in ('Ack', 'ReqRN'):
                cmd = (kind, rn)
            else:
                cmd = (kind, rng.randrange(4),
                       rng.choice([0, 0, 1, 2, 5, 31, 63, 128, 200]),
                       rng.choice([1, 2, 4, 255]), rn, 0)
            trace.append(cmd)
            if ref.rn is not None:
                old_rns = (old_rns + [ref.rn])[-5:]
            before = ref.state
            if rng.random() < .02:
                # a command of a kind the tag does not know
                odd = rng.choice([UnknownCommand(), object(), None,
                                  std.QueryReply(ref.rn or 0)])
                try:
                    got = tag.receive(frame_of(odd, trcal))
                except Exception:
                    c.count('unknown commands')
                else:
                    c.fail('an unknown command is accepted', command=odd,
                           got=got, state=before.name)
                ref.check_state(tag, dict(unknown=repr(odd)))
            frame = tag.receive(frame_of(real_command(cmd), trcal))
            ref.step(cmd, trcal, tag, frame)
            c.count('commands')
            c.seen((before.name, cmd[0], ref.state.name, tuple(ref.flags),
                    frame is not None, ref.active))
            if before in (S.ACKNOWLEDGED, S.SECURED) and \
                    cmd[0] in ('Query', 'QueryRep', 'QueryAdjust'):
                c.count('inversions')
    return tag


class RunTags:
    """The reference state machine next to every tag of a whole run."""

    def __init__(self, c):
        self.c = c
        self.refs = {}

    def __call__(self, rec, e):
        c, p = self.c, rec.case.p
        new = e.tr1 if e.tr1 is not e.tr0 else None
        cmd = None
        if new is not None:
            cmd = R.decode(new.command.command.encode())
            replies = dict(new.replies)
            c.eq(len(replies), len(new.replies), 'a tag replies twice')
            c.expect(all(t in e.tags1 for t in replies),
                     'an unknown tag replies')
        for tag in e.present1:
            ref = self.refs.get(tag)
            if ref is None:
                ref = self.refs[tag] = RefTag(
                    c, p['sensitivity'],
                    {1: p['s1'], 2: p['s2'], 3: p['s3']},
                    lambda tag=tag: banks_of(tag))
            s0, s1 = e.tags0.get(tag), e.tags1[tag]
            was_on = s0 is not None and s0.state is not S.OFF
            is_on = s1.state is not S.OFF
            if is_on and not was_on:
                ref.powered_on(e.t)
            elif was_on and not is_on:
                ref.powered_off(e.t)
            if cmd is not None:
                ref.step(cmd, rec.case.trcal, tag, replies.get(tag))
                c.count('commands in runs')
            else:
                ref.check_state(tag)


def extreme_numbers(c, rng):
    """Exchanges with the first and the last of the 16-bit numbers, both as
    number of the slot and as handle (waited for: one draw in 65536)."""
    def wait(ask, number):
        for _ in range(400000):
            f = ask()
            if f is not None and f.reply.rn == number:
                return True
        return False

    def send(cmd, kind, number):
        f = tag.receive(frame_of(cmd))
        got = None if f is None else X.reply_kind(f.reply)
        c.eq(got, kind, 'reply of a tag with an extreme number',
             command=type(cmd).__name__, number=number, state=tag.state.name)
        return f

    for number in (0, 0xFFFF):
        tag, kernel = new_tag(rng)
        tag.tid = 'AAAA' + rng.randbytes(6).hex().upper()
        query = frame_of(std.Query(
            std.DivideRatio.DR_8, std.TagEncoding.M4, False, std.SelFlag.ALL,
            std.Session.S0, X.TARGETS['A'], 0))
        c.begin(dict(extreme_number=number))
        with quiet():
            power(tag, 0.0, 0.0)
            if not wait(lambda: tag.receive(query), number):
                continue
            if rng.random() < .5:
                send(std.ReqRN(number), None, number)
            send(std.Ack(number ^ rng.choice([1, 0xFFFF, 0x8000])), None,
                 number)
            c.eq(tag.state, S.ARBITRATE, 'state after a foreign number',
                 number=number)
            if not wait(lambda: tag.receive(query), number):
                continue
            f = send(std.Ack(number), 'epc', number)
            c.eq(bytes(f.reply.epc), bytes.fromhex(tag.epc), 'identifier')
            c.eq(tag.state, S.ACKNOWLEDGED, 'state', number=number)
            send(std.ReqRN(number ^ 1), None, number)
            f = send(std.ReqRN(number), 'handle', number)
            handle = [f.reply.rn]

            def again():
                f = tag.receive(frame_of(std.ReqRN(handle[0])))
                c.expect(f is not None, 'no new handle', old=handle[0],
                         state=tag.state.name)
                handle[0] = f.reply.rn
                return f
            if not wait(again, number):
                continue
            c.eq(tag.state, S.SECURED, 'state', number=number)
            send(std.Read(std.MemoryBank.TID, 0, 2, number ^ 1, 0), None,
                 number)
            f = send(std.Read(std.MemoryBank.TID, 0, 2, number, 0), 'data',
                     number)
            c.eq(bytes(f.reply.memory), bytes.fromhex(tag.tid)[:4], 'memory',
                 number=number)
            send(std.ReqRN(number), 'handle', number)
            send(std.QueryRep(std.Session.S0), None, number)
            c.eq(tag.s0, std.InventoryFlag.B, 'flag after the exchange',
                 number=number)
        c.count('extreme numbers')
        c.seen(('number', number))


COMMANDS = ['Query', 'Query', 'QueryRep', 'QueryRep', 'QueryRep',
            'QueryAdjust', 'Ack', 'ReqRN', 'Read']


@check('G01', 'random command and power sequences to one tag, and every tag '
              'of whole runs, next to a reference state machine (state, '
              'slot, flags, numbers, Q, reply, duration of the reply); '
              'distinct = (state, command, next state, flags, replied)')
def g01(c):
    rng = c.rng
    np.random.seed(c.np_seed())
    for i in range(c.n(260)):
        drive(c, rng, 120 if i != 5 else 30000, dict(
            power=.04 if i != 5 else .0004, steady=.93, commands=COMMANDS))
    for rec, kind, case in W.sweep(
            c, c.n(14), ['friendly', 'crowded', 'persistent', 'adaptive',
                         'flicker', 'any', 'fading'],
            lambda: [RunTags(c)], 1000):
        pass
    for _ in W.sweep(c, c.n(1), ['throng'], lambda: [RunTags(c)], 480):
        pass
    extreme_numbers(c, rng)
    c.need('commands', 20000)
    c.need('inversions', 200)
    c.need('commands in runs', 3000)


@check('G02', 'command sequences with many power cycles around the '
              'persistence times (exact ties included) and rounds of all '
              'sessions and targets, and whole runs with short power '
              'cycles; distinct = (state, command, next state, flags)')
def g02(c):
    rng = c.rng
    np.random.seed(c.np_seed())
    for i in range(c.n(260)):
        drive(c, rng, 120 if i != 5 else 20000, dict(
            power=.15, steady=.85, commands=['Query'] * 5 + ['QueryRep'] * 3 +
            ['QueryAdjust', 'Ack', 'ReqRN']))
    # what the persistence of each session says, one power cycle at a time
    for i in range(c.n(600)):
        tag, kernel = new_tag(rng)
        per = {s: rng.choice([0.0, .5, 2.0, 2.25, 64.0]) for s in (1, 2, 3)}
        tag.s1_persistence, tag.s2_persistence, tag.s3_persistence = \
            per[1], per[2], per[3]
        want = ['A'] * 4
        c.begin(dict(persistence=per))
        now = rng.choice([0.0, 100.0])
        power(tag, now, 0.0)
        for s in rng.sample(range(4), rng.randint(1, 4)):
            for _ in range(rng.choice([1, 1, 2, 3])):
                f = tag.receive(frame_of(std.Query(
                    std.DivideRatio.DR_8, std.TagEncoding.FM0, False,
                    std.SelFlag.ALL, X.SESS[s], X.TARGETS[want[s]], 0)))
                c.expect(f is not None, 'round joined when the flag matches')
                tag.receive(frame_of(std.Ack(f.reply.rn)))
                tag.receive(frame_of(std.QueryRep(X.SESS[s])))
                want[s] = 'B' if want[s] == 'A' else 'A'
        flags = [X.FLAG.get(f) for f in (tag.s0, tag.s1, tag.s2, tag.s3)]
        c.eq(flags, want, 'flags after inventory')
        for _ in range(rng.choice([1, 1, 2])):
            on_for = rng.choice([0.0, 1.0, 100.0])
            off_for = rng.choice([0.0, .25, .5, .75, 1.0, 2.0, 2.25, 2.5,
                                  64.0, 65.0, 1000.0])
            power(tag, now + on_for, None)
            now += on_for + off_for
            power(tag, now, 0.0)
            want = ['A'] + [want[s] if off_for <= per[s] else 'A'
                            for s in (1, 2, 3)]
            flags = [X.FLAG.get(f) for f in (tag.s0, tag.s1, tag.s2, tag.s3)]
            c.eq(flags, want, 'flags after a power cycle', off=off_for,
                 persistence=per)
            c.seen(('cycle', tuple(want), off_for))
            c.count('cycles')
    for rec, kind, case in W.sweep(c, c.n(14), ['persistent', 'persistent',
                                                'flicker', 'friendly'],
                                   lambda: [RunTags(c)], 1500):
        pass
    c.need('power ups', 200)
    c.need('inversions', 100)


def chi2_ok(c, counts, what, expected=None, **info):
    counts = np.asarray(counts, float)
    n = counts.sum()
    exp = np.full(len(counts), n / len(counts)) if expected is None \
        else np.asarray(expected) * n
    stat = ((counts - exp) ** 2 / exp).sum()
    p = st.chi2.sf(stat, len(counts) - 1)
    c.expect(p > 1e-9, f'{what} is not uniform', p=p, n=int(n), **info)
    c.count('distributions')


class Extreme:
    """Integer draws that return the end of their range.  Nothing is said
    about draws that are made in another way."""

    def __init__(self, last):
        self.last, self.calls = last, 0

    def __call__(self, low, high=None, size=None, dtype=int):
        self.calls += 1
        if size is not None or self.calls > 50:
            raise Unknown()
        if high is None:
            low, high = 0, low
        return int(high) - 1 if self.last else int(low)

    @contextlib.contextmanager
    def installed(self):
        real = np.random.randint
        np.random.randint = self
        try:
            yield self
        finally:
            np.random.randint = real


class Unknown(Exception):
    pass


def ends(c, make, act, want, what, **info):
    """Both ends of the range of a draw are reached."""
    got = set()
    for last in (False, True):
        obj = make()
        e = Extreme(last)
        try:
            with e.installed():
                v = act(obj)
        except Unknown:
            return
        if e.calls == 0 or v is None:
            return
        got.add(int(v))
    c.eq(got, set(want), f'ends of the range of the {what}', **info)
    c.count('ends')


@check('G03', 'slots of all Q and 16-bit numbers drawn by groups of tags '
              '(chi-square p > 1e-9, joint and successive draws), whole '
              'rounds of unacknowledged tags; distinct = (Q, slots)')
def g03(c):
    rng = c.rng
    np.random.seed(c.np_seed())

    def group(n):
        tags = [new_tag(rng)[0] for _ in range(n)]
        for t in tags:
            power(t, 0.0, 0.0)
        return tags

    def query(q):
        return frame_of(std.Query(std.DivideRatio.DR_8, std.TagEncoding.FM0,
                                  False, std.SelFlag.ALL, std.Session.S0,
                                  std.InventoryFlag.A, q))
    sess = std.Session.S0
    rns = {'query': [], 'rep': [], 'adjust': [], 'handle': [],
           'second handle': []}
    repeats = 0
    with quiet():
        for q in range(16):
            c.begin(dict(q=q, what='slots'))
            tags = group(4)
            frame = query(q)
            rows = []
            for _ in range(c.n(700 if q else 100)):
                row = []
                for t in tags:
                    f = t.receive(frame)
                    v = int(t.slot_counter)
                    c.expect(0 <= v < 2 ** q, 'slot out of range', slot=v,
                             q=q)
                    c.eq(f is not None, v == 0, 'reply in slot 0 only',
                         slot=v)
                    if f is not None:
                        rns['query'].append(int(f.reply.rn))
                    row.append(v)
                rows.append(row)
                c.seen((q, tuple(row)))
            flat = [v for row in rows for v in row]
            if q:
                if q <= 6:
                    chi2_ok(c, np.bincount(flat, minlength=2 ** q), 'slot',
                            q=q)
                else:
                    chi2_ok(c, np.bincount([v >> (q - 6) for v in flat],
                                           minlength=64), 'slot (high bits)',
                            q=q)
                    chi2_ok(c, np.bincount([v & 63 for v in flat],
                                           minlength=64), 'slot (low bits)',
                            q=q)
                    for b in range(q):
                        chi2_ok(c, np.bincount([(v >> b) & 1 for v in flat],
                                               minlength=2), 'slot bit', q=q)
                # different tags of a round, successive rounds of a tag
                h = 1 << (q - 1)
                for what, pairs in (
                        ('slots of two tags', [(r[0], r[1]) for r in rows]),
                        ('slots of two tags', [(r[1], r[3]) for r in rows]),
                        ('slots of two rounds',
                         [(a[0], b[0]) for a, b in zip(rows, rows[1:])])):
                    k = [2 * (a >= h) + (b >= h) for a, b in pairs]
                    chi2_ok(c, np.bincount(k, minlength=4), what, q=q)
                    k = [2 * (a & 1) + (b & 1) for a, b in pairs]
                    chi2_ok(c, np.bincount(k, minlength=4), what, q=q)
        # every slot of a round
        for q in range(1, 13 if c.thorough else 10):
            c.begin(dict(q=q, what='all slots'))
            t, = group(1)
            frame, left = query(q), set(range(2 ** q))
            for _ in range(30 * 2 ** q):
                t.receive(frame)
                left.discard(int(t.slot_counter))
                if not left:
                    break
            c.expect(not left, 'a slot is never drawn', q=q,
                     slots=sorted(left)[:10])
            c.count('all slots')
        # the ends of every range
        for q in range(16):
            c.begin(dict(q=q, what='ends'))

            def slot(t):
                t.receive(query(q))
                return t.slot_counter

            def adjusted(t, u=0):
                t.receive(query(q))
                t.receive(frame_of(std.QueryAdjust(sess, u)))
                return t.slot_counter
            one = lambda: group(1)[0]
            ends(c, one, slot, (0, 2 ** q - 1), 'slots', q=q)
            for u in (-1, 0, 1):
                if 0 <= q + u <= 15:
                    ends(c, one, lambda t: adjusted(t, u),
                         (0, 2 ** (q + u) - 1), 'slots after adjust', q=q,
                         updn=u)

        def waiting():
            t = group(1)[0]
            while int(t.slot_counter) != 1:
                t.receive(query(1))
            return t

        def acknowledged():
            t = group(1)[0]
            t.receive(frame_of(std.Ack(
                query_until_reply(t, rng).reply.rn)))
            return t

        def secured():
            t = acknowledged()
            t.receive(frame_of(std.ReqRN(t.rn)))
            return t

        def number(f):
            return None if f is None else f.reply.rn
        for make, act, what in (
                (lambda: group(1)[0], lambda t: number(t.receive(query(0))),
                 'numbers'),
                (waiting, lambda t: number(t.receive(frame_of(
                    std.QueryRep(sess)))), 'numbers of later slots'),
                (acknowledged, lambda t: number(t.receive(frame_of(
                    std.ReqRN(t.rn)))), 'handles'),
                (secured, lambda t: number(t.receive(frame_of(
                    std.ReqRN(t.rn)))), 'second handles')):
            c.begin(dict(what=what))
            ends(c, make, act, (0, 0xFFFF), what)
        # numbers
        c.begin(dict(what='numbers'))
        tags = group(3)
        same = 0
        for _ in range(c.n(1500)):
            for t in tags:
                f = t.receive(query(0))
                rns['query'].append(int(f.reply.rn))
            same += len({t.rn for t in tags}) < 3
        c.expect(same <= 10, 'tags draw the same numbers', times=same)
        for _ in range(c.n(1500)):
            t = tags[0]
            f = t.receive(query(1))
            while f is None:
                f = t.receive(frame_of(std.QueryRep(sess)))
                if f is not None:
                    rns['rep'].append(int(f.reply.rn))
            f = None
            t.receive(query(1))
            d = std.QueryAdjust(sess, rng.choice([0, -1]))
            f = t.receive(frame_of(d))
            if f is not None:
                rns['adjust'].append(int(f.reply.rn))
            t = tags[1]
            f = query_until_reply(t, rng)
            t.receive(frame_of(std.Ack(f.reply.rn)))
            f = t.receive(frame_of(std.ReqRN(t.rn)))
            rns['handle'].append(int(f.reply.rn))
            f = t.receive(frame_of(std.ReqRN(t.rn)))
            rns['second handle'].append(int(f.reply.rn))
            repeats += rns['handle'][-1] == rns['second handle'][-1]
        c.expect(repeats <= 10, 'a new handle equals the old one',
                 times=repeats)
        for name, v in rns.items():
            c.expect(len(v) > 200, 'numbers drawn', kind=name)
            c.expect(all(0 <= x <= 0xFFFF for x in v), 'number out of range',
                     kind=name)
            chi2_ok(c, np.bincount([x >> 11 for x in v], minlength=32),
                    'number (high bits)', kind=name)
            chi2_ok(c, np.bincount([x & 31 for x in v], minlength=32),
                    'number (low bits)', kind=name)
            for b in range(16):
                chi2_ok(c, np.bincount([(x >> b) & 1 for x in v],
                                       minlength=2), 'number bit', bit=b)
            dup = sum(a == b for a, b in zip(v, v[1:]))
            c.expect(dup <= 10, 'successive numbers repeat', kind=name)
        # slots after an adjust command
        for up in (1, 0, -1):
            for q in (1, 2, 3, 5, 9, 14):
                tags = group(2)
                vals = []
                for _ in range(c.n(300)):
                    for t in tags:
                        t.receive(query(q))
                        t.receive(frame_of(std.QueryAdjust(sess, up)))
                        v = int(t.slot_counter)
                        c.expect(0 <= v < 2 ** (q + up),
                                 'slot out of range after adjust', slot=v,
                                 q=q + up)
                        vals.append(v)
                w = q + up
                if w:
                    k = min(w, 4)
                    chi2_ok(c, np.bincount([v >> (w - k) for v in vals],
                                           minlength=2 ** k),
                            'slot after adjust', q=w)
                    chi2_ok(c, np.bincount([v & (2 ** k - 1) for v in vals],
                                           minlength=2 ** k),
                            'slot after adjust', q=w)
    # one reply a round
    for i in range(c.n(150)):
        q = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9])
        n = rng.choice([1, 2, 5])
        session = rng.choice(X.SESS)
        tags = group(n)
        c.begin(dict(q=q, tags=n, session=session.name))
        rounds = rng.choice([1, 2, 3])
        for _ in range(rounds):
            drawn, when = [], [[] for _ in tags]
            for k in range(2 ** q):
                cmd = std.Query(std.DivideRatio.DR_8, std.TagEncoding.M2,
                                True, std.SelFlag.ALL, session,
                                std.InventoryFlag.A, q) if k == 0 else \
                    std.QueryRep(session)
                fr = frame_of(cmd)
                for j, t in enumerate(tags):
                    f = t.receive(fr)
                    if k == 0:
                        drawn.append(int(t.slot_counter))
                    if f is not None:
                        when[j].append(k)
                if rng.random() < .2:       # noise: nobody is acknowledged
                    used = {int(t.rn) for t in tags}
                    rn = rng.randrange(65536)
                    if rn not in used:
                        fr = frame_of(rng.choice([std.Ack(rn),
                                                  std.ReqRN(rn)]))
                        for t in tags:
                            c.eq(t.receive(fr), None, 'reply to a number '
                                 'that is not its own')
                if rng.random() < .2:
                    other = rng.choice([s for s in X.SESS if s != session])
                    fr = frame_of(std.QueryRep(other))
                    for t in tags:
                        c.eq(t.receive(fr), None,
                             'reply to a round of another session')
            for d, w in zip(drawn, when):
                c.eq(w, [d], 'slots in which an unacknowledged tag replies',
                     q=q)
                c.count('rounds')
            c.seen((q, tuple(drawn)))
    c.need('rounds', 100)
    c.need('distributions', 150)
