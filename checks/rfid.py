"""S01..S09: whole RFID runs, observed from outside."""
import collections
import itertools
import json
import logging
import math
import os
import subprocess
import sys

import numpy as np

from vlib import linkref as L
from vlib import refstd as R
from vlib import rfidcases as W
from vlib import rfidrec as X
from vlib.bench import STATES, Bench
from vlib.core import VERIF, check, isclose, quiet

OFF = X.OFF
ALL_KINDS = [k for k in W.KINDS if k not in ('late', 'long')]
STOPPED = X.sim.ExitReason.STOPPED


def near(a, b, abs_=1e-12, rel=1e-11):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


# --------------------------------------------------------------------------
# S01: timing of exchanges
# --------------------------------------------------------------------------
class Timing:
    """While on there is an exchange, while off there is none."""

    def __init__(self, c):
        self.c = c
        self.on = None

    def __call__(self, rec, e):
        c = self.c
        on = e.r1.power is not None
        if not on:
            c.expect(e.tr1 is None, 'an exchange while the reader is off',
                     t=e.t)
        elif self.on is None and e.r0.power is None or self.on:
            c.expect(e.tr1 is not None, 'no exchange while the reader is on',
                     t=e.t, event=e.name)
        self.on = on or None


def exchange_times(c, case, x):
    """Reference (command, reply start, longest reply, duration)."""
    p = case.p
    tari, rtcal, trcal = p['tari'], case.rtcal, case.trcal
    cmd = R.reader_frame(x.bits, tari, rtcal, trcal, p['delim'])
    if x.replies:
        t1 = R.t_min(1, rtcal, trcal, p['dr'], p['temp'])
        t2 = R.t_max(2, rtcal, trcal, p['dr'])
        # each tag keeps the link frequency of the round it has joined
        freqs = getattr(x, 'freqs', None) or \
            [R.blf(p['dr'], trcal)] * len(x.reply_bits)
        longest = max(R.tag_frame_blf(b, f, p['m'], p['trext'])
                      for b, f in zip(x.reply_bits, freqs))
        dur = max(cmd + t1 + longest + t2, cmd + 2 * rtcal)
        return cmd, cmd + t1, longest, dur
    t1 = R.t_max(1, rtcal, trcal, p['dr'], p['temp'])
    return cmd, None, None, cmd + t1 + R.t_min(3, rtcal, trcal, p['dr'])


def check_times(c, case, x, a, info):
    """Published times of an exchange against the reference."""
    cmd, rs, longest, dur = exchange_times(c, case, x)
    for name, want in (
            ('start_time', x.start), ('command_duration', cmd),
            ('command_end_time', x.start + cmd),
            ('duration', dur), ('finish_time', x.start + dur),
            ('reply_duration', longest),
            ('reply_start_time', None if rs is None else x.start + rs),
            ('reply_end_time', None if rs is None
             else x.start + rs + longest)):
        c.expect(near(a[name], want), f'{name} of an exchange',
                 got=a[name], want=want, **info)
    return dur


def direct_exchanges(c, n):
    """Every reader state, any number of replies of different lengths."""
    rng = c.rng
    for i in range(n):
        b = Bench(rng, rng.choice([0, 1, 2, 3, 6]), read_tid=True,
                  sel='ALL', target='A', **(
                      # replies so fast that T4 lasts longer
                      dict(trmul=rng.choice([.1, .2, .3]), m=1, trext=False,
                           dr='64/3') if i % 5 == 2 else {}))
        p = b.case.p
        freq = {}
        if i % 4 == 3:
            # tags that joined rounds with other TRcals
            for t in b.tags:
                trcal = b.case.rtcal * rng.uniform(1.1, 3.0)
                with quiet():
                    t.receive(X.std.ReaderFrame(X.std.ReaderPreamble(
                        p['tari'], b.case.rtcal, trcal, p['delim']),
                        b.first.command))
                freq[t] = R.blf(p['dr'], trcal)
            c.count('other link frequencies')
        for what in STATES + ('Read',):
            if i % 4 == 1 and what != 'Query' and rng.random() < .5:
                # a reader in use takes other link parameters; the tags
                # keep the link frequency of the round they have joined
                for t in b.tags:
                    freq.setdefault(t, R.blf(p['dr'], b.case.trcal))
                q = X.Case(rng).p
                for k in ('tari', 'rtmul', 'trmul', 'delim', 'temp'):
                    p[k] = q[k]
                b.reader.tari, b.reader.delim = p['tari'], p['delim']
                b.reader.rtcal, b.reader.trcal = b.case.rtcal, b.case.trcal
                b.reader.temp = X.TEMPS[p['temp']]
                c.count('other settings of a reader in use')
            rn = rng.choice([0, 0xFFFF, 0x5555, rng.randrange(1 << 16)])
            handle = rng.choice([0, 0xFFFF, 0xFF00, rng.randrange(1 << 16)])
            c.begin(dict(settings={k: repr(v) for k, v in p.items()},
                         command=what, rn=rn, handle=handle))
            frame = b.reach(what, rn, handle)
            x = X.Exchange()
            for k in (0, rng.randint(0, len(b.tags))):
                kinds = [rng.choice(['rn16', 'epc', 'handle', 'data'])
                         for _ in range(k)]
                if i % 5 == 2:
                    kinds = ['rn16'] * k
                elif rng.random() < .3:
                    kinds = ['epc'] * k
                replies = [(t, b.reply(kind, rng.choice(
                    [2, 4, 12, 30, 62, 200]))) for kind, t in
                    zip(kinds, rng.sample(b.tags, k))]
                x.start = rng.choice([0.0, .25, rng.uniform(0, 3)])
                x.bits = frame.command.encode()
                x.cmd = R.decode(x.bits)
                x.replies = replies
                x.reply_bits = [X.reply_bitlen(f.reply) for _, f in replies]
                x.freqs = [freq[t] for t, _ in replies] if freq else None
                tr = b.exchange(frame, replies, x.start)
                check_times(c, b.case, x, {
                    a: getattr(tr, a) for a in (
                        'start_time', 'command_end_time', 'reply_start_time',
                        'reply_end_time', 'duration', 'finish_time',
                        'command_duration', 'reply_duration')},
                    dict(cmd=x.cmd, replies=x.reply_bits, start=x.start))
                c.eq([t for t in tr.tags], [t for t, _ in replies],
                     'tags of an exchange')
                c.count('direct')
                c.count('direct without reply' if not k else
                        'direct with replies')
                c.seen((what, tuple(sorted(x.reply_bits)), p['m'], p['dr'],
                        p['trext'], p['temp']))


@check('S01', 'runs over all kinds of workloads (power cycling, collisions, '
              'losses, leaving tags, all link parameters); start, end and '
              'published times of every exchange against reference '
              'durations; exchanges put on the air by hand (every reader '
              'state and handle, replies of different lengths); distinct = '
              '(link parameters, command, replies)')
def s01(c):
    direct_exchanges(c, c.n(120))
    for rec, kind, case in W.sweep(c, c.n(33), ALL_KINDS,
                                   lambda: [Timing(c)], 1500, snaps=False):
        log = rec.log
        offs = [t for t, on in log.on_off if not on]
        ons = [t for t, on in log.on_off if on]
        key = (case.p['tari'], case.p['dr'], case.p['m'],
               case.p['trext'], case.p['temp'], round(case.trcal, 9))
        prev = None
        for x in log.exchanges:
            info = dict(start=x.start, cmd=x.cmd, replies=x.reply_bits,
                        index=x.index)
            dur = check_times(c, case, x, x.attrs, info)
            if prev is not None and prev.ended_by == 'next':
                c.expect(x.start == prev.end, 'gap between exchanges',
                         prev_end=prev.end, **info)
            else:
                c.expect(x.start in ons, 'exchange starts out of turn',
                         **info)
            if x.ended_by == 'next':
                c.expect(near(x.end, x.start + dur), 'end of an exchange',
                         got=x.end, want=x.start + dur, **info)
                c.count('complete')
            elif x.ended_by == 'off':
                c.expect(x.end in offs, 'exchange cut without power off',
                         **info)
                c.expect(x.end <= x.start + dur + 1e-12,
                         'exchange cut after its end', **info)
                c.count('cut')
            else:
                c.expect(x is log.exchanges[-1], 'exchange never ended',
                         **info)
                c.expect(log.last_time <= x.start + dur + 1e-12,
                         'exchange overdue', last=log.last_time, **info)
            c.seen((key, x.cmd[0], tuple(sorted(set(x.reply_bits))),
                    x.ended_by))
            if x.replies:
                c.count('with replies')
            prev = x
        # power cycles
        flips = log.on_off
        if flips:
            c.eq(flips[0], (0.0, True) if flips[0][0] == 0 else flips[0],
                 'the reader is switched on at the start')
        for (t0, s0), (t1, s1) in zip(flips, flips[1:]):
            c.expect(s0 != s1, 'power notifications alternate')
            want = case.p['on'] if s0 else case.p['off']
            c.expect(near(t1 - t0, want, 1e-9), 'length of a power phase',
                     on=s0, got=t1 - t0, want=want)
        if not case.p['switch_power']:
            c.eq(len(flips), 1, 'always-on reader switches')
        elif flips:
            t, s = flips[-1]
            c.expect(log.last_time <= t + (case.p['on'] if s else
                                           case.p['off']) + 1e-9,
                     'power phase overdue', since=t)
    c.need('cut', 20)
    c.need('with replies', 300)
    c.need('direct without reply', 600)
    c.need('direct with replies', 300)


# --------------------------------------------------------------------------
# S02: tags enter and leave
# --------------------------------------------------------------------------
class Conservation:
    def __init__(self, c):
        self.c = c

    def __call__(self, rec, e):
        c, m, log = self.c, rec.model, rec.log
        if len(e.present1) != len(e.present0) or log.n_events % 16 == 0:
            c.expect(len(set(e.present1)) == len(e.present1),
                     'a tag is present twice', t=e.t)
        c.eq(len(e.present1), len(log.entered) - len(log.left),
             'created = present + gone', t=e.t)
        c.eq(m.statistics.num_tags_created, len(log.entered),
             'number of created tags', t=e.t)
        c.expect(len(log.entered) <= rec.case.p['num_tags'],
                 'more tags than configured', t=e.t)
        c.eq(len(m.statistics.tags_history), len(log.left),
             'statistics records of tags that left', t=e.t)


@check('S02', 'runs with random, zero and tied generation intervals; entry '
              'and leaving time of every tag, conservation after every '
              'event, statistics records; distinct = (tags, gaps, life)')
def s02(c):
    kinds = ['any', 'ties', 'shortlived', 'crowded', 'friendly', 'flicker',
             'adaptive']

    def cheap(rng):
        # always-off-ish reader settings keep the number of commands small
        f = dict(q=rng.choice([0, 3, 5]))
        if rng.random() < .5:
            n = rng.choice([1, 5, 15, 40])
            f.update(num_tags=n, gap=rng.choice([.01, .1, .003]),
                     tari=25e-6)
        return f
    for rec, kind, case in itertools.chain(
            W.sweep(c, c.n(49), kinds, lambda: [Conservation(c)], 1500,
                    cheap, snaps=False),
            W.sweep(c, c.n(1), ['throng'], lambda: [Conservation(c)], 800,
                    snaps=False)):
        log, p = rec.log, case.p
        given = case.intervals.given
        t, want = 0.0, []
        for g in given[:p['num_tags']]:
            t += g
            want.append(t)
        c.expect(len(given) > len(log.entered) or
                 len(log.entered) == p['num_tags'],
                 'an interval per tag is asked for')
        for k, (got, tag) in enumerate(log.entered):
            c.expect(near(got, want[k], 1e-9), 'entry time of a tag', tag=k,
                     got=got, want=want[k])
        for w in want[len(log.entered):]:
            c.expect(log.n_events and log.last_time <= w + 1e-9,
                     'a tag was not created', due=w, last=log.last_time)
        born = {tag: t for t, tag in log.entered}
        c.eq(len(born), len(log.entered), 'a tag enters once')
        gone = collections.Counter(tag for _, tag in log.left)
        c.expect(all(v == 1 for v in gone.values()), 'a tag leaves once')
        c.expect(set(gone) <= set(born), 'unknown tag left')
        for t, tag in log.left:
            c.expect(near(t - born[tag], case.lifetime, 1e-9, 1e-9),
                     'time a tag stays', got=t - born[tag],
                     want=case.lifetime)
        for tag, t in born.items():
            if tag not in gone:
                c.expect(log.last_time <= t + case.lifetime + 1e-9,
                         'a tag stays too long', born=t)
        hist = rec.model.statistics.tags_history
        c.expect([r.tag for r in hist] == [tag for _, tag in log.left],
                 'records of the tags that left, in their order')
        if log.stats.exit_reason is STOPPED:
            c.eq(len(log.left), p['num_tags'], 'tags at the end of the run')
            c.expect(log.left[-1][0] == log.last_time,
                     'the run ends when the last tag leaves')
            c.count('ended')
        else:
            c.expect(len(log.left) < p['num_tags'],
                     'the run goes on after the last tag left')
        c.count('left', len(log.left))
        c.seen((p['num_tags'], tuple(p['gaps']), p['life'], kind))
    c.need('ended', c.n(49) // 12)
    c.need('left', 30)
    several_generators(c)


def several_generators(c):
    """Models with up to four generators of their own numbers, intervals,
    speeds and prefixes, some without a limit."""
    rng = c.rng
    ended = 0
    for i in range(c.n(16)):
        case = X.Case(rng, **dict(W.KINDS['friendly'](rng), gap=.01,
                                  q=rng.choice([0, 3]), tari=25e-6,
                                  update=.02, num_tags=1))
        model = case.build()
        model.generators.clear()
        spec, total = {}, 0
        for k in range(rng.choice([1, 2, 2, 3, 4])):
            g = X.obj.Generator()
            g.epc_prefix = g.tid_prefix = 'C%dDE' % k
            g.tid_bitlen = 64
            g.pos0 = np.array([2.0 + k, -1.0, 0.0])
            g.tag_antenna_direction = np.array([0, 0, 1])
            g.sensitivity = case.p['sensitivity']
            for _ in range(rng.choice([1, 2, 3])):
                g.velocity = rng.choice([2.0, 10.0, 40.0])
                life = rng.choice([.01, .05, .2])
                g.travel_distance = life * g.velocity
                c.close(g.lifetime, life, 'time the tags of a generator stay',
                        velocity=g.velocity, distance=g.travel_distance)
            g.max_tags_generated = rng.choice([-1, 0, 1, 2, 5, 12])
            gaps = X.Intervals([rng.choice([0.0, .01, .04, rng.random() * .1])
                                for _ in range(6)], rng.choice([.02, .033]))
            g.set_interval(gaps)
            model.generators.append(g)
            spec[g.epc_prefix] = (g.max_tags_generated, gaps, life)
            total += g.max_tags_generated if g.max_tags_generated >= 0 \
                else 10 ** 6
        stop = rng.choice([None, 1, 3, 8, total if total < 100 else 20])
        model.max_tags_num = stop or None
        seed = rng.randrange(2 ** 32)
        c.begin(dict(generators={k: (v[0], repr(v[1]), v[2])
                                 for k, v in spec.items()}, stop=stop,
                     seed=seed, settings={k: repr(v) for k, v in
                                          case.p.items()}))
        rec = X.Recorder(model, (), False)
        rec.case = case
        log = rec.run(seed, max_num_events=900)
        born = {tag: t for t, tag in log.entered}
        c.eq(len(born), len(log.entered), 'a tag enters once')
        for prefix, (limit, gaps, life) in spec.items():
            mine = [(t, tag) for t, tag in log.entered
                    if tag.epc.startswith(prefix)]
            c.expect(limit < 0 or len(mine) <= limit,
                     'a generator exceeds its limit', generator=prefix,
                     got=len(mine))
            t = 0.0
            times = []
            for gap in gaps.given:
                t += gap
                times.append(t)
            for k, (got, tag) in enumerate(mine):
                c.expect(k < len(times) and near(got, times[k], 1e-9),
                         'entry time of a tag', generator=prefix, tag=k,
                         got=got, want=times[:k + 1][-1:])
            due = times if limit < 0 else times[:limit]
            if len(mine) == len(times) and (limit < 0 or len(mine) < limit):
                # the next tag, if its interval was not even asked for
                due = times + [t + gaps()]
            for w in due[len(mine):]:
                c.expect(log.last_time <= w + 1e-9, 'a tag was not created',
                         generator=prefix, due=w, last=log.last_time)
            for t, tag in log.left:
                if tag.epc.startswith(prefix):
                    c.expect(near(t - born[tag], life, 1e-9, 1e-9),
                             'time a tag stays', generator=prefix,
                             got=t - born[tag], want=life)
            for t, tag in mine:
                if not any(x is tag for _, x in log.left):
                    c.expect(log.last_time <= t + life + 1e-9,
                             'a tag stays too long', born=t)
            c.count('generators')
            if limit < 0 and len(mine) > 12:
                c.count('unlimited')
            c.seen(('generators', prefix, limit, len(mine), life))
        c.eq(model.statistics.num_tags_created, len(born),
             'number of created tags')
        c.expect([r.tag for r in model.statistics.tags_history] ==
                 [tag for _, tag in log.left],
                 'records of the tags that left, in their order')
        if model.max_tags_num is None:
            c.expect(log.stats.exit_reason is not STOPPED,
                     'a run without a number of tags stops')
        elif log.stats.exit_reason is STOPPED:
            c.eq(len(log.left), stop, 'tags at the end of the run')
            ended += 1
        else:
            c.expect(len(log.left) < stop,
                     'the run goes on after the last tag left')
        c.count('entered from several generators', len(born))
    c.need('entered from several generators', 30)


# --------------------------------------------------------------------------
# S03: identifiers
# --------------------------------------------------------------------------
@check('S03', 'direct generators over prefixes and lengths (up to thousands '
              'of tags, wrap-around), random reads of tag memory, and every '
              'identifier and memory reply received in runs; distinct = '
              '(lengths, tag identifier)')
def s03(c):
    from checks.tag import new_tag, power, query_until_reply, frame_of
    rng = c.rng
    for i in range(c.n(60)):
        g = X.obj.Generator()
        g.pos0 = np.array([1.0, 2.0, 3.0])
        g.tag_antenna_direction = np.array([0, 0, 1])
        pre = rng.choice(['AAAA', 'AAAA', 'FF', '', '0123', 'E200ABCD'])
        tpre = rng.choice(['AAAA', 'E2', ''])
        g.epc_prefix, g.tid_prefix = pre, tpre
        g.epc_bitlen = max(4 * len(pre), rng.choice(
            [96, 128, 64, 4 * len(pre) + 8, 4 * len(pre) + 4,
             4 * len(pre) + 12, 4 * len(pre) + 16, 256, 496]))
        g.tid_bitlen = max(4 * len(tpre), rng.choice(
            [64, 128, 4 * len(tpre) + 8, 4 * len(tpre) + 12, 1024]))
        n = rng.choice([5, 20, 300, 700])
        if i == 3:              # more tags than a 16 bit number tells apart
            n, g.epc_bitlen, g.tid_bitlen = 70000, 96, 128
        if i in (5, 6):         # every identifier of a short suffix, twice
            n = 9000
            g.epc_bitlen = 4 * len(pre) + (12 if i == 5 else 16)
            g.tid_bitlen = 4 * len(tpre) + (20 if i == 5 else 12)
        c.begin(dict(epc=(pre, g.epc_bitlen), tid=(tpre, g.tid_bitlen), n=n))
        model = X.obj.Model()
        tags = [g.create_tag(model) for _ in range(n)]
        c.eq(len({t.tag_id for t in tags}), n, 'distinct tag numbers')
        for what, vals, prefix, bits in (
                ('EPC', [t.epc for t in tags], pre, g.epc_bitlen),
                ('TID', [t.tid for t in tags], tpre, g.tid_bitlen)):
            free = bits - 4 * len(prefix)
            distinct = min(n, 2 ** free)
            for v in vals:
                c.expect(v.upper().startswith(prefix), f'{what} prefix',
                         value=v)
                c.eq(len(v) * 4, bits, f'{what} length', value=v)
                int(v, 16)
            c.eq(len({v.upper() for v in vals[:distinct]}), distinct,
                 f'distinct {what}s', bits=bits, prefix=prefix)
            c.seen((what, bits, prefix, n))
        c.count('generated', n)
    # generators told apart by their prefixes, creating tags in turns
    for i in range(c.n(10)):
        model = X.obj.Model()
        gens = []
        for k in range(rng.choice([2, 3, 4])):
            g = X.obj.Generator()
            g.pos0 = np.array([1.0, 2.0, 3.0])
            g.tag_antenna_direction = np.array([0, 0, 1])
            g.epc_prefix, g.tid_prefix = 'A%dBC' % k, 'E%d' % k
            g.epc_bitlen = rng.choice([64, 96, 128])
            g.tid_bitlen = rng.choice([64, 96])
            gens.append(g)
        made = [rng.randrange(len(gens)) for _ in range(rng.choice([9, 200]))]
        c.begin(dict(generators=[(g.epc_prefix, g.epc_bitlen, g.tid_bitlen)
                                 for g in gens], order=made))
        tags = [gens[k].create_tag(model) for k in made]
        for what in ('tag_id', 'epc', 'tid'):
            vals = [getattr(t, what) for t in tags]
            c.eq(len(set(vals)), len(vals), f'distinct {what}')
        for k, t in zip(made, tags):
            c.expect(t.epc.startswith('A%dBC' % k) and t.tid.startswith(
                'E%d' % k), 'prefix of the generator', epc=t.epc, tid=t.tid)
            c.eq((4 * len(t.epc), 4 * len(t.tid)),
                 (gens[k].epc_bitlen, gens[k].tid_bitlen), 'lengths')
        c.count('generators in turns', len(gens))
    # memory as stored in the tag
    for i in range(c.n(400)):
        tag, kernel = new_tag(rng)
        tag.epc = rng.randbytes(rng.choice([2, 12, 16, 62])).hex().upper()
        tag.tid = rng.choice([None, rng.randbytes(2 * rng.choice(
            [1, 4, 8, 64, 120])).hex().upper()])
        tag.user_mem = rng.choice([None, rng.randbytes(2 * rng.choice(
            [1, 2, 32, 200, 300, 700])).hex().upper()])
        c.begin(dict(epc=tag.epc, tid=tag.tid, user=tag.user_mem))
        power(tag, 0.0, 0.0)
        f = query_until_reply(tag, rng)
        f = tag.receive(frame_of(X.std.Ack(f.reply.rn)))
        c.eq(bytes(f.reply.epc), bytes.fromhex(tag.epc), 'identifier sent')
        c.eq(f.reply.bitlen, 32 + 4 * len(tag.epc), 'length of the reply')
        f = tag.receive(frame_of(X.std.ReqRN(tag.rn)))
        handle = f.reply.rn
        for _ in range(6):
            name = rng.choice(['EPC', 'TID', 'TID', 'USER', 'RESERVED'])
            data = {'EPC': tag.epc, 'TID': tag.tid, 'USER': tag.user_mem,
                    'RESERVED': None}[name]
            bank = getattr(X.std.MemoryBank, name)
            words = len(data) // 4 if data is not None else 4
            ptr = rng.choice([0, 0, 1, rng.randrange(words),
                              max(0, words - 1)])
            ptr = min(ptr, words - 1)
            cnt = rng.choice([1, 2, words, 255, max(1, words - ptr),
                              rng.randint(1, 130)])
            f = tag.receive(frame_of(X.std.Read(bank, ptr, cnt, handle)))
            if data is None:
                c.eq(f, None, 'a bank that does not exist is read',
                     bank=name)
                c.count('missing bank')
                continue
            want = bytes.fromhex(data)[2 * ptr:2 * (ptr + cnt)]
            c.expect(f is not None, 'memory is not sent', bank=name)
            c.eq(bytes(f.reply.memory), want, 'memory sent', bank=name,
                 word_ptr=ptr, word_count=cnt)
            c.eq(f.reply.bitlen, 33 + 8 * len(want), 'length of the reply')
            c.eq(f.reply.rn, handle, 'handle of the reply')
            c.count('reads')
            c.seen(('read', name, ptr, cnt, words))
    # whole runs
    for rec, kind, case in W.sweep(
            c, c.n(14), ['friendly', 'crowded', 'any', 'shortlived'],
            events=2500, snaps=False,
            force=lambda r: dict(read_tid=r.random() < .8, epc_bitlen=r.choice(
                [96, 32, 64, 128, 16, 256]))):
        p, log = case.p, rec.log
        tags = [t for _, t in log.entered]
        for what, vals, bits in (('EPC', [t.epc for t in tags],
                                  p['epc_bitlen']),
                                 ('TID', [t.tid for t in tags],
                                  16 * p['words'])):
            for v in vals:
                c.eq(len(v) * 4, bits, f'{what} length', value=v)
                c.expect(v.startswith('AAAA'), f'{what} prefix', value=v)
            if bits > 16:
                c.eq(len(set(vals)), len(vals), f'distinct {what}s')
        for x in log.exchanges:
            for tag, f in x.replies:
                k = X.reply_kind(f.reply)
                if k == 'epc':
                    c.eq(bytes(f.reply.epc), bytes.fromhex(tag.epc),
                         'identifier sent')
                    c.count('identifiers')
                elif k == 'data':
                    c.eq(bytes(f.reply.memory),
                         bytes.fromhex(tag.tid)[:2 * p['words']],
                         'memory sent')
                    c.count('memories')
            for f in x.received or ():
                sent = [g for _, g in x.replies]
                c.expect(any(g is f or (
                    X.reply_kind(g.reply) == X.reply_kind(f.reply) and
                    vars(g.reply) == vars(f.reply)) for g in sent),
                    'the reader received what nobody sent')
    c.need('reads', 500)
    c.need('identifiers', 50)
    c.need('memories', 10)


# --------------------------------------------------------------------------
# S04: movement
# --------------------------------------------------------------------------
class Movement:
    def __init__(self, c):
        self.c = c
        self.born = {}
        self.stamp = {}

    def __call__(self, rec, e):
        c, p = self.c, rec.case.p
        start = (p['tag_x'], -p['dist'], p['tag_z'])
        for tag in e.present1:
            pos = e.tags1[tag].pos
            if tag not in self.born:
                self.born[tag] = self.stamp[tag] = e.t
                old = None
            else:
                old = e.tags0[tag].pos if tag in e.tags0 else None
            if old != pos or old is None:
                self.stamp[tag] = e.t
                c.count('moves')
            dy = p['speed'] * (self.stamp[tag] - self.born[tag])
            u = L.unit(p['direction'] or (0, 1, 0))
            want = tuple(a + b * dy for a, b in zip(start, u))
            tol = 1e-9 * (1 + abs(dy) + abs(start[1]))
            c.expect(all(abs(a - b) <= tol for a, b in zip(pos, want)),
                     'position of a tag', t=e.t, got=pos, want=want,
                     born=self.born[tag], event=e.name)
            c.expect(e.t - self.stamp[tag] <= p['update'] * (1 + 1e-6) + 1e-9,
                     'position not updated', t=e.t, last=self.stamp[tag])
            if rec.log.n_events % 16 == 0:
                c.count('positions')
        # tags that left do not matter any more


@check('S04', 'runs with random update intervals, speeds, directions and '
              'power cycles, numbers given as integers; '
              'position of every tag after every event; distinct = (speed, '
              'update interval, workload)')
def s04(c):
    def force(rng):
        f = dict(speed=rng.choice([.5, 2.0, 8.333, 30.0, 100.0,
                                   rng.uniform(.1, 50)]),
                 ints=rng.random() < .3)
        if rng.random() < .6:
            f['direction'] = rng.choice([
                (0, 2, 0), (0, -1, 0), (0, 3, 4), (0.0, .25, 0.0),
                (rng.uniform(-.1, .1), rng.uniform(-3, 3), rng.random()),
                (0, 1, .01)])
        if rng.random() < .3:
            f.update(dist=10.0, tag_x=5.0, tag_z=0.0, ints=True)
        if rng.random() < .15:
            f.update(update=rng.choice([.0004, .00025, 1e-4]))
        return f
    for rec, kind, case in itertools.chain(
            W.sweep(c, c.n(32), ['any', 'friendly', 'crowded', 'ties',
                                 'flicker', 'antennas', 'shortlived',
                                 'adaptive'],
                    lambda: [Movement(c)], 2000, force),
            W.sweep(c, c.n(1), ['throng'], lambda: [Movement(c)], 420)):
        c.seen((case.p['speed'], case.p['update'], kind, case.p['life']))
    c.need('moves', 500)


# --------------------------------------------------------------------------
# S05: power
# --------------------------------------------------------------------------
class Power:
    EPS = 1e-6

    def __init__(self, c, budget):
        self.c, self.b = c, budget
        self.stamp = {}

    def __call__(self, rec, e):
        c, case = self.c, rec.case
        on = e.r1.power is not None
        flip = (e.r0.power is None) != (e.r1.power is None)
        sens = case.p['sensitivity']
        t_on = rec.log.on_off[-1][0] if on else None
        for tag in e.present1:
            s1 = e.tags1[tag]
            s0 = e.tags0.get(tag)
            powered = s1.state is not OFF
            if not on:
                c.expect(not powered, 'a tag is powered by a reader that is '
                         'off', t=e.t)
                c.eq(s1.power, None, 'power kept without reader', t=e.t)
                self.stamp[tag] = e.t
                continue
            c.eq(s1.power is not None, powered, 'only powered tags keep a '
                 'power', t=e.t)
            moved = s0 is None or s0.pos != s1.pos
            changed = s0 is not None and (
                s0.power != s1.power or
                (s0.state is OFF) != (s1.state is OFF))
            if moved or flip:
                self.stamp[tag] = e.t
            if moved or flip or changed:
                spots = [s1.pos] if s0 is None or s0.pos == s1.pos else \
                    [s0.pos, s1.pos]
                rs = []
                for pos in spots:
                    rs += case.tag_power(self.b, pos, e.t - t_on,
                                         e.r1.antenna)
                info = dict(t=e.t, got=s1.power, admissible=rs,
                            sensitivity=sens, event=e.name)
                if powered:
                    c.expect(L.within(s1.power, rs), 'power of a tag',
                             **info)
                    c.expect(s1.power >= sens - self.EPS,
                             'a tag is powered below its sensitivity',
                             **info)
                    c.count('on')
                else:
                    c.expect(any(lo <= sens + self.EPS for lo, hi in rs),
                             'a tag stays off above its sensitivity',
                             **info)
                    c.count('off')
                if s0 is not None and (s0.state is OFF) != (
                        s1.state is OFF):
                    c.count('switches')
            c.expect(e.t - self.stamp[tag] <=
                     case.p['update'] * (1 + 1e-6) + 1e-9,
                     'power not updated', t=e.t, last=self.stamp[tag])
        if e.tr0 is not None and e.tr1 is not e.tr0 and e.tr0.replies and \
                e.tr0.reply_start_time < e.t:
            # the exchange got as far as its replies
            start = e.tr0.reply_start_time
            for tag in e.present0:
                c.expect(self.stamp[tag] >= start - 1e-9 * max(1.0, start),
                         'power not updated when a reply starts', t=e.t,
                         reply_start=start, last=self.stamp[tag])
            c.count('reply starts')
        if e.tr1 is not None and e.tr1 is not e.tr0:
            for tag, _ in e.tr1.replies:
                c.expect(e.tags1[tag].state is not OFF,
                         'an unpowered tag replies', t=e.t)
        c.seen((e.name, on, tuple(sorted(
            (s.state.name, s.power is None) for s in e.tags1.values()))
            [:4]))


@check('S05', 'runs in which tags cross their sensitivity and the reader '
              'cycles its power; power and state of every tag after every '
              'event against the reference link budget; distinct = (event, '
              'reader state, tag states); single tags at their sensitivity')
def s05(c):
    def force(rng):
        # tags drive through the antenna lobe and through fading minima
        f = dict(sensitivity=rng.choice([-18.0, -12.0, -10.0, -25.0, -30.0,
                                         -60.0]),
                 life=rng.choice([.3, .6, 1.0]),
                 speed=rng.choice([5.0, 8.333, 16.0, 30.0]),
                 dist=rng.choice([1.0, 3.0, 6.0, 8.0]),
                 num_tags=rng.choice([1, 2, 3, 6]), gap=.05)
        if rng.random() < .5:
            f.update(on=rng.choice([.05, .1, .2, .02]), switch_power=True)
        return f
    kinds = ['friendly', 'any', 'antennas', 'friendly', 'persistent',
             'flicker', 'ties']
    for i in range(c.n(27)):
        if i % 27 > 23:
            kind = ('throng', 'late', 'long')[i % 27 - 24]
            f = W.KINDS[kind](c.rng)
        else:
            kind = kinds[i % len(kinds)]
            f = W.KINDS[kind](c.rng)
            f.update(force(c.rng))
        if i % 27 == 4:
            f.update(update=c.rng.choice([2e-4, 1e-4]))
        if i % 27 in (7, 17):       # a reader of 0 dBm, very sensitive tags
            f.update(power=(0.0, 0)[i % 2], sensitivity=-60.0)
        case = X.Case(c.rng, **f)
        seed = c.rng.randrange(2 ** 32)
        c.begin(dict(kind=kind, seed=seed,
                     settings={k: repr(v) for k, v in case.p.items()}))
        rec = X.run_case(case, seed, [Power(c, case.budget())],
                         max_num_events={'throng': 420, 'long': 9000}.get(
                             kind, 1800))
        c.count('events', rec.log.n_events)
        if i < 2:
            c.sample(dict(kind=kind, events=rec.log.n_events))
    c.need('on', 500)
    c.need('off', 300)
    c.need('switches', 60)
    c.need('reply starts', 500)
    for _ in range(c.n(60)):
        levels_of_power(c, c.rng)
    c.need('ties', 200)


def levels_of_power(c, rng):
    """One tag, powers above, at and below its sensitivity."""
    from checks.tag import new_tag, power, query_until_reply
    sens = rng.choice([-18.0, -10.0, 0.0, -60.0, rng.uniform(-40, 5)])
    tag, kernel = new_tag(rng, sens)
    on, now, trace = False, 0.0, []
    c.begin(dict(sensitivity=sens, trace=trace))
    near = [math.nextafter(sens, x) for x in (-math.inf, math.inf)]
    with quiet():
        for _ in range(60):
            v = rng.choice([sens, sens, None, sens - 30, sens + 30,
                            rng.gauss(sens, 1)] + near)
            now += rng.choice([0.0, .001, 1.0])
            trace.append((now, v))
            power(tag, now, v)
            on = v is not None and (v > sens or (v == sens and on))
            c.eq(tag.state is not OFF, on, 'the tag is on', power=v)
            c.eq(tag.power, v if on else None, 'power kept by the tag')
            c.count('ties', v == sens)
            if on and rng.random() < .3:
                query_until_reply(tag, rng)
        c.seen(('levels', sens, on, len(trace)))


# --------------------------------------------------------------------------
# S06: statistics
# --------------------------------------------------------------------------
class Recount:
    """Recounts what the statistics must say."""

    def __init__(self, c, budget, drone=None):
        self.c, self.b, self.drone = c, budget, drone
        self.rounds = collections.Counter()
        self.adjust = collections.Counter()
        self.reads = collections.defaultdict(list)
        self.open = None
        self.left = []

    def __call__(self, rec, e):
        c, case = self.c, rec.case
        new = e.tr1 if e.tr1 is not e.tr0 else None
        if new is not None:
            cmd = R.decode(new.command.command.encode())
            if cmd[0] == 'Query':
                for tag in e.present1:
                    if e.tags1[tag].state in X.IN_ROUND:
                        self.rounds[tag] += 1
                        c.count('joins')
            if cmd[0] == 'QueryAdjust':
                for tag in e.present1:
                    s0, s1 = e.tags0[tag], e.tags1[tag]
                    if s0.state in X.IN_ROUND and s0.q != s1.q:
                        self.adjust[tag] += 1
                        c.count('adjusts')
        if e.received:
            c.eq(len(e.received), 1, 'one reply at a time', t=e.t)
            f = e.received[0]
            tag = e.tr0.replies[0][0]
            k = X.reply_kind(f.reply)
            if k == 'epc':
                s = e.tags0[tag]
                rnd = e.r0.round[0]
                r = dict(round=rnd, antenna=e.r0.antenna, pos=s.pos,
                         apos=case.antenna(e.r0.antenna)[0], tid=False,
                         t=e.t, tag=tag)
                t_on = rec.log.on_off[-1][0] if e.r1.power is not None \
                    else None
                r['link'] = None
                if self.drone is not None:
                    r['apos'] = self.drone.last(e.r0.antenna)
                    c.count('reads by a moving reader')
                elif s.power is not None and t_on is not None:
                    back = case.back_power(self.b, s.power, s.pos,
                                           e.t - t_on, e.r0.antenna)
                    r['link'] = back
                self.reads[tag].append(r)
                self.open = r
            elif k == 'data':
                c.expect(self.open is not None and self.open['tag'] is tag,
                         'memory of a tag not identified', t=e.t)
                self.open['tid'] = True
                c.count('tid reads')
        for t, kind, i, j in e.listeners:
            if kind == 'slot-':
                self.open = None
        gone = [t for t in e.present0 if t not in e.present1]
        for tag in gone:
            self.left.append(tag)


def link_ok(c, case, b, back, got_snr, got_ber):
    pre = R.preamble_bits(case.p['m'], case.p['trext']) * case.p['m'] / \
        case.blf
    ok = False
    for lo, hi in back:
        mid = (lo + hi) / 2 if hi > -L.INF else -L.INF
        raw = 0.0 if mid == -L.INF else L.undb(mid - case.p['noise'])
        if raw < 2e-8 or hi - lo > 1e-4:
            return None
        ang = 1 / math.sqrt(raw * pre * 1.2e6)
        amp = case.p['m'] * raw / case.blf * 1.2e6
        want = b.snr(mid, case.p['m'], case.blf, pre)
        tol = amp * (hi - lo) * (1 + ang) + 1e-12
        ok = ok or abs(float(got_snr) - want) <= tol
    return ok and isclose(got_ber, b.ber(float(got_snr)), 1e-7, 1e-12)


def figures(c, n):
    """The reported figures over histories written by hand."""
    rng = c.rng
    for i in range(n):
        st = X.obj.Statistics()
        st.use_power_statistics = False
        tags, want = [], []
        c.begin(dict(history=want))
        deep = rng.random() < .3
        for k in range(rng.choice([1, 1, 2, 3, 7, 20, 100])):
            tag = X.obj.Tag(k)
            rec = st.create_tag_record(tag)
            c.expect(st.get_tag_record(tag) is rec, 'record of a tag')
            rec.num_rounds_attained = rng.choice([0, 0, 1, 5, rng.randrange(
                300)])
            rec.num_qadjust_attained = rng.choice([0, 1, rng.randrange(50)])
            reads = []
            m = rng.choice([0, 0, 1, 2, 3, rng.randrange(60 if deep else 6)])
            late = rng.choice([0, 0, m - 1, rng.randrange(m + 1)])
            for j in range(m):
                reads.append(j >= late and rng.random() < rng.choice(
                    [0, .1, 1]))
            tags.append((tag, rec))
            want.append((rec.num_rounds_attained, rec.num_qadjust_attained,
                         reads))
        # identifications of several tags interleave
        todo = [(k, j) for k, w in enumerate(want)
                for j in range(len(w[2]))]
        order = sorted(todo, key=lambda v: (v[1], rng.random()))
        reader = X.obj.Reader()
        reader.attach_antenna(X.obj.Antenna())
        for k, j in order:
            rec = tags[k][1]
            r = rec.new_tag_read_record(reader, 10 * j + k)
            c.expect(rec.tag_read_record is r, 'open record of a tag')
            if want[k][2][j]:
                r.read_tid = True
            rec.close_tag_read_record()
            if rng.random() < .2:
                rec.close_tag_read_record()
        leave = list(range(len(tags)))
        rng.shuffle(leave)
        stay = leave[len(leave) - rng.choice([0, 0, 1]):] \
            if len(leave) > 1 else []
        stay = [] if len(stay) == len(leave) else stay
        gone = leave[:len(leave) - len(stay)]
        for k in gone:
            st.close_tag_record(tags[k][0])
        c.expect([h.tag for h in st.tags_history] ==
                 [tags[k][0] for k in gone], 'records in order of leaving')
        n = len(gone)
        c.close(st.average_rounds_per_tag(),
                sum(want[k][0] for k in gone) / n, 'rounds per tag')
        c.close(st.inventory_probability(),
                sum(bool(want[k][2]) for k in gone) / n,
                'identification probability')
        c.close(st.read_tid_probability(),
                sum(any(want[k][2]) for k in gone) / n,
                'memory read probability')
        c.eq([int(v) for v in st.average_changing_q()],
             [want[k][1] for k in gone], 'adjust commands per tag')
        for k in gone:
            got = tags[k][1].inventory_history
            c.eq([(g.round_index, bool(g.read_tid)) for g in got],
                 [(10 * j + k, v) for j, v in enumerate(want[k][2])],
                 'recorded identifications')
        c.count('figures')
        c.seen((n, len(stay), tuple(len(w[2]) for w in want)))


@check('S06', 'runs over all kinds of workloads; rounds, reads (round, '
              'antenna, positions, SNR, error rate, memory) and obeyed '
              'adjust commands of each tag that left recounted from the '
              'observed exchanges; reported ratios, also over long '
              'histories written by hand; distinct = per-tag history')
def s06(c):
    figures(c, c.n(150))
    kinds = ['friendly', 'crowded', 'adaptive', 'shortlived', 'antennas',
             'fading', 'persistent', 'any', 'ties', 'flicker']
    rng = c.rng
    for i in range(c.n(33)):
        kind = kinds[i % len(kinds)] if i % 33 < 30 else \
            ('throng', 'late', 'long')[i % 33 - 30]
        f = W.KINDS[kind](rng)
        if kind == 'long':
            f.update(life=4.0, speed=.1)
        if kind == 'throng':
            f.update(life=.08, tari=6.25e-6, update=.02)
        f['life'] = f.get('life', rng.choice([.02, .05, .1, .2]))
        if kind in ('adaptive', 'crowded'):
            f['life'] = rng.choice([.05, .1, .2])
        case = X.Case(rng, **f)
        seed = rng.randrange(2 ** 32)
        c.begin(dict(kind=kind, seed=seed,
                     settings={k: repr(v) for k, v in case.p.items()}))
        b = case.budget()
        drone = W.Drone(rng) if rng.random() < .3 \
            else None
        o = Recount(c, b, drone)
        rec = X.run_case(case, seed, [o, drone] if drone else [o],
                         max_num_events={'throng': 420,
                                                        'long': 16000}.get(
                                                            kind, 2500))
        st = rec.model.statistics
        hist = st.tags_history
        c.count('events', rec.log.n_events)
        c.expect([h.tag for h in hist] == o.left, 'records of tags that left')
        c.eq(st.num_tags_created, len(rec.log.entered), 'created tags')
        for h in hist:
            tag = h.tag
            c.eq(h.num_rounds_attained, o.rounds[tag], 'rounds of a tag')
            c.eq(h.num_qadjust_attained, o.adjust[tag],
                 'adjust commands obeyed by a tag')
            want = o.reads[tag]
            got = h.inventory_history
            c.eq(len(got), len(want), 'number of reads of a tag',
                 rounds=[w['round'] for w in want],
                 recorded=[g.round_index for g in got])
            for g, w in zip(got, want):
                c.eq(g.round_index, w['round'], 'round of a read')
                c.eq(g.antenna_index, w['antenna'], 'antenna of a read')
                c.expect(np.allclose(g.tag_pos, w['pos'], 1e-12, 1e-9),
                         'tag position of a read', got=g.tag_pos,
                         want=w['pos'])
                c.expect(np.allclose(g.reader_antenna_pos, w['apos'], 1e-12,
                                     1e-9), 'antenna position of a read',
                         got=g.reader_antenna_pos, want=w['apos'])
                c.eq(bool(g.read_tid), w['tid'], 'memory read of a tag',
                     round=w['round'], t=w['t'])
                if w['link'] is not None:
                    ok = link_ok(c, case, b, w['link'], g.snr, g.ber)
                    if ok is not None:
                        c.expect(ok, 'SNR and error rate of a read',
                                 snr=g.snr, ber=g.ber, power=w['link'])
                        c.count('links')
                c.count('reads')
            c.seen((o.rounds[tag], tuple((w['round'], w['tid'])
                                         for w in want), kind))
        if hist:
            n = len(hist)
            c.close(st.average_rounds_per_tag(),
                    sum(o.rounds[t] for t in o.left) / n, 'rounds per tag')
            c.close(st.inventory_probability(),
                    sum(bool(o.reads[t]) for t in o.left) / n,
                    'identification probability')
            c.close(st.read_tid_probability(),
                    sum(any(w['tid'] for w in o.reads[t])
                        for t in o.left) / n, 'memory read probability')
            c.eq([int(v) for v in st.average_changing_q()],
                 [o.adjust[t] for t in o.left], 'adjust commands per tag')
            c.count('reports')
    c.need('reads', 100)
    c.need('links', 50)
    c.need('reads by a moving reader', 10)
    c.need('tid reads', 20)
    c.need('adjusts', 20)
    c.need('reports', 10)


# --------------------------------------------------------------------------
# S07: completion and reproducibility
# --------------------------------------------------------------------------
def signature(rec):
    """Everything observable of a run, with tags numbered by entry."""
    log = rec.log
    no = {t: i for i, (_, t) in enumerate(log.entered)}
    ex = [(x.start, x.end, x.bits, x.ended_by,
           [(no[t], X.reply_kind(f.reply), getattr(f.reply, 'rn', None))
            for t, f in x.replies],
           [X.reply_kind(f.reply) for f in x.received or ()])
          for x in log.exchanges]
    st = rec.model.statistics
    hist = [(no[h.tag], h.num_rounds_attained, h.num_qadjust_attained,
             [(r.round_index, r.antenna_index, repr(float(r.snr)),
               repr(float(r.ber)), bool(r.read_tid), [
                   repr(float(v)) for v in r.tag_pos])
              for r in h.inventory_history],
             [repr((float(r.time), float(r.tag_rx_power),
                    float(r.reader_rx_power), float(r.snr)))
              for r in h.power_mapping])
            for h in st.tags_history]
    return [ex, hist, [(t, no[x]) for t, x in log.left], log.n_events,
            log.last_time, list(log.listeners), list(log.on_off),
            log.stats.exit_reason.name]


def first_diff(a, b):
    for i, name in enumerate(('exchanges', 'records', 'leaving', 'events',
                              'end', 'rounds and slots', 'power',
                              'exit reason')):
        if a[i] != b[i]:
            if isinstance(a[i], list):
                for k, (u, v) in enumerate(zip(a[i], b[i])):
                    if u != v:
                        return f'{name}[{k}]: {u} != {v}'[:600]
                return f'{name}: {len(a[i])} != {len(b[i])} entries'
            return f'{name}: {a[i]} != {b[i]}'
    return None


CHILD = r'''
import sys, json, hashlib, random
sys.path[:0] = [%(repo)r, %(verif)r]
from vlib import core
core.setup_import()
from vlib import rfidrec as X, rfidcases as W
from checks.rfid import signature
out = []
for kind, cseed, seed in json.loads(sys.argv[1]):
    rng = random.Random(cseed)
    case = X.Case(rng, **W.KINDS[kind](rng))
    rec = X.run_case(case, seed, (), False, max_num_events=1200)
    out.append(hashlib.sha256(repr(signature(rec)).encode()).hexdigest())
print('RESULT ' + json.dumps(out))
'''


def undisturbed(c, n):
    """What is logged, where to, and whether powers are collected do not
    change the course of a run."""
    import shutil
    import tempfile
    from pysim.sim.logger import ModelLoggerConfig
    rng = c.rng
    d = tempfile.mkdtemp(prefix='verif-s07-')
    try:
        for i in range(n):
            kind = ALL_KINDS[i % len(ALL_KINDS)]
            cseed, seed = rng.randrange(2 ** 32), rng.randrange(2 ** 32)
            ways = [dict(stats=False), dict(stats=True)] + rng.sample([
                dict(stats=False, level=logging.DEBUG),
                dict(stats=True, level=logging.DEBUG, file=True),
                dict(stats=False, level=logging.CRITICAL),
                dict(stats=False, level=logging.INFO, file=True,
                     console=False),
                dict(stats=rng.random() < .5, level=logging.ERROR,
                     debug=True),
                dict(stats=False, debug=True, level=logging.DEBUG)], 2)
            first = None
            for k, way in enumerate(ways):
                r = __import__('random').Random(cseed)
                case = X.Case(r, **W.KINDS[kind](r))
                case.p['power_stats'] = way['stats']
                c.begin(dict(kind=kind, cseed=cseed, seed=seed, way=way))
                lc = ModelLoggerConfig()
                if 'level' in way:
                    lc = ModelLoggerConfig(
                        level=way['level'],
                        use_console=way.get('console', True),
                        file_name=os.path.join(d, f'{i}-{k}.log')
                        if 'file' in way else None)
                rec = X.run_case(case, seed, (), False, max_num_events=900,
                                 logger_config=lc,
                                 debug=way.get('debug', False))
                sig = signature(rec)
                sig[1] = [h[:-1] for h in sig[1]]   # without powers
                first = first or sig
                c.expect(sig == first, 'logging or collecting statistics '
                         'changes a run', diff=first_diff(first, sig))
                c.count('undisturbed')
    finally:
        shutil.rmtree(d, ignore_errors=True)


@check('S07', 'adversarial configurations (ties of all times, flickering '
              'power, tags leaving or losing their power inside exchanges, adaptation, several '
              'antennas, power statistics) run to their end; repeated in '
              'the same and in other processes with the same seed; distinct '
              '= configuration')
def s07(c):
    import hashlib
    rng = c.rng

    def lost(rec, e):
        if e.tr0 is not None and e.r1.power is not None:
            for tag, _ in e.tr0.replies:
                if tag in e.tags0 and e.tags0[tag].power is not None and \
                        e.tags1[tag].power is None:
                    c.count('power lost while answering')
    # completion
    kinds = ['ties', 'shortlived', 'flicker', 'any', 'adaptive', 'antennas',
             'persistent', 'deaf', 'crowded', 'dying']
    for i in range(c.n(36) + c.n(14)):
        kind = kinds[i % len(kinds)]
        f = W.KINDS[kind](rng)
        if i >= c.n(36):
            kind, f = 'dying', W.dying(rng)
        else:
            f['num_tags'] = rng.choice([1, 2, 4, 8])
            f['gap'] = rng.choice([0.0, .001, .01, .02])
            f.pop('gaps', None)
            f['life'] = rng.choice([.001, .01, .03, .06,
                                    rng.uniform(.001, .1)])
        f['power_stats'] = rng.random() < .5
        if rng.random() < .3:
            f['q'] = rng.choice([0, 8, 12, 15])
        if rng.random() < .35:
            f['ints'] = True
            f.update({k: rng.choice(v) for k, v in dict(
                tag_x=[5.0, 2.0, 3.0], tag_z=[0.0, 1.0],
                dist=[0.0, 2.0, 10.0], reader_z=[5.0, 3.0],
                reader_x=[5.0, 2.0]).items() if kind != 'dying'})
        if kind != 'dying' and rng.random() < .3:
            f['read_tid'], f['words'] = True, rng.choice([1, 64, 255])
        case = X.Case(rng, **f)
        seed = rng.randrange(2 ** 32)
        c.begin(dict(kind=kind, seed=seed,
                     settings={k: repr(v) for k, v in case.p.items()}))
        rec = X.run_case(case, seed, [lost] if kind == 'dying' else (),
                         kind == 'dying', max_num_events=60000,
                         log_level=rng.choice([None, None, None, 10]))
        st = rec.model.statistics
        c.eq(rec.log.stats.exit_reason, STOPPED, 'the run ends by itself')
        c.eq(len(st.tags_history), case.p['num_tags'],
             'all tags were simulated')
        for v in (st.average_rounds_per_tag(), st.inventory_probability(),
                  st.read_tid_probability()):
            c.expect(v == v and v >= 0, 'reported figure', value=v)
        with quiet():
            st.to_long_string()
        c.count('complete')
        c.count('events', rec.log.n_events)
        c.seen((kind, seed))
        if i < 2:
            c.sample(dict(kind=kind, events=rec.log.n_events,
                          end=rec.log.last_time))
    # reproducibility
    todo, want = [], []
    for i in range(c.n(12)):
        kind = ALL_KINDS[i % len(ALL_KINDS)]
        cseed, seed = rng.randrange(2 ** 32), rng.randrange(2 ** 32)
        sigs = []
        for k in range(2):
            r = __import__('random').Random(cseed)
            case = X.Case(r, **W.KINDS[kind](r))
            c.begin(dict(kind=kind, cseed=cseed, seed=seed, repeat=k,
                         settings={a: repr(v) for a, v in case.p.items()}))
            np.random.random(k * 7)     # the state before does not matter
            rec = X.run_case(case, seed, (), False, max_num_events=1200)
            sigs.append(signature(rec))
        c.expect(sigs[0] == sigs[1], 'same seed, different run',
                 diff=first_diff(*sigs))
        c.count('repeated')
        todo.append((kind, cseed, seed))
        want.append(hashlib.sha256(repr(sigs[0]).encode()).hexdigest())
    undisturbed(c, c.n(16))
    from vlib.core import REPO
    procs = []
    for hs in ('1', '4242'):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        env.pop('VERIF_REEXEC', None)
        procs.append((hs, subprocess.Popen(
            [sys.executable, '-c', CHILD % dict(repo=REPO, verif=VERIF),
             json.dumps(todo)], stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, text=True, env=env)))
    for hs, proc in procs:
        stdout, stderr = proc.communicate(timeout=600)
        line = [x for x in stdout.splitlines() if x.startswith('RESULT ')]
        c.expect(line, 'the run does not complete in another process',
                 stderr=stderr[-1500:])
        got = json.loads(line[-1][7:])
        for t, a, b in zip(todo, want, got):
            c.eq(b, a, 'same seed, different run in another process',
                 case_=t, hashseed=hs)
            c.count('other process')
    c.need('complete', c.n(36))
    c.need('power lost while answering', 4)
    c.need('other process', c.n(12))


# --------------------------------------------------------------------------
# S09: reception
# --------------------------------------------------------------------------
class Reception:
    def __init__(self, c, budget, out):
        self.c, self.b, self.out = c, budget, out

    def __call__(self, rec, e):
        c, case = self.c, rec.case
        tr = e.tr0
        if tr is None or tr is e.tr1:
            return
        if e.r1.power is None:      # switched off
            c.eq(len(e.received), 0, 'received while switching off', t=e.t)
            return
        n = len(tr.replies)
        if n != 1:
            c.eq(len(e.received), 0, 'a reply is received in a collision'
                 if n else 'received without a reply', t=e.t, replies=n)
            c.count('collisions' if n else 'silent')
            return
        tag, frame = tr.replies[0]
        if tag not in e.tags0 or tag not in e.present0:
            c.eq(len(e.received), 0, 'received from a tag that left', t=e.t)
            c.count('left')
            return
        s = e.tags0[tag]
        t_on = rec.log.on_off[-1][0]
        bits = X.reply_bitlen(frame.reply)
        if s.power is None:
            ber = 0.5
        else:
            back = case.back_power(self.b, s.power, s.pos, e.t - t_on,
                                   e.r0.antenna)
            lo, hi = back[0]
            if hi == -L.INF:
                ber = .5
            elif hi - lo > 1e-4:
                return
            else:
                pre = R.preamble_bits(case.p['m'], case.p['trext']) * \
                    case.p['m'] / case.blf
                raw = L.undb((lo + hi) / 2 - case.p['noise'])
                if raw < 1e-7 or 1 / math.sqrt(raw * pre * 1.2e6) > 1e3:
                    return
                ber = self.b.ber(self.b.snr((lo + hi) / 2, case.p['m'],
                                            case.blf, pre))
        p = (1 - ber) ** bits
        got = bool(e.received)
        if p > 1 - 1e-10:
            c.expect(got, 'a clear reply is lost', p=p, bits=bits, t=e.t)
            c.count('certain')
        elif p < 1e-12:
            c.expect(not got, 'a reply without signal is received', p=p,
                     bits=bits, t=e.t)
            c.count('hopeless')
        self.out.append((p, got, X.reply_kind(frame.reply)))
        c.count('replies')


def z_of(rows):
    v = sum(p * (1 - p) for p, _, _ in rows)
    d = sum(g - p for p, g, _ in rows)
    return v, d / math.sqrt(v) if v > 0 else 0.0


def direct_reception(c, n, trials):
    """Replies of every length at chosen error rates; equal replies of
    several tags."""
    rng = c.rng
    total = []
    for i in range(n):
        b = Bench(rng, rng.choice([1, 2, 3, 4]), **dict(
            W.friendly(rng), sel='ALL', target='A', read_tid=True,
            distr=rng.choice(['rayleigh', 'awgn'])))
        case, p = b.case, b.case.p
        budget = case.budget()
        kind = rng.choice(['rn16', 'epc', 'epc', 'handle', 'data', 'data'])
        size = rng.choice([2, 12, 30, 62, 128, 254, 510])
        what = {'rn16': 'QueryRep', 'epc': 'Ack', 'handle': 'ReqRN',
                'data': 'Read'}[kind]
        frame, tag = b.reach(what), b.tags[0]
        reply = b.reply(kind, size)
        bits = X.reply_bitlen(reply.reply)
        t = rng.choice([0.0, .01, .2])
        want = rng.choice([.05, .2, .5, .8, .95, rng.random()])
        pos = tuple(float(v) for v in tag.pos)

        def chance(power):
            back = case.back_power(budget, power, pos, t)
            _, ber = case.snr_ber(budget, [sum(back[0]) / 2])[0]
            return (1 - ber) ** bits
        lo, hi = -250.0, 150.0
        for _ in range(60):
            mid = (lo + hi) / 2
            if chance(mid) < want:
                lo = mid
            else:
                hi = mid
        tag.sensitivity = -300.0
        tag.set_power(0.0, hi)
        prob = chance(hi)
        c.begin(dict(settings={k: repr(v) for k, v in p.items()},
                     reply=kind, bits=bits, power=hi, p=prob))
        back = case.back_power(budget, hi, pos, t)
        if back[0][1] - back[0][0] > 1e-6 or abs(prob - want) > .02:
            continue
        tr = b.exchange(frame, [(tag, reply)])
        np.random.seed(rng.randrange(2 ** 32))
        got = []
        with quiet():
            for _ in range(trials):
                r = tr.received_tag_frame(b.model.medium, t)
                c.expect(r[1] is None or r[1] is reply, 'received reply')
                got.append(r[1] is not None)
        v = trials * prob * (1 - prob)
        z = (sum(got) - trials * prob) / math.sqrt(v)
        total.append(z)
        c.expect(abs(z) < 6.5, 'frequency of a reply of this length', z=z,
                 got=sum(got), want=trials * prob, trials=trials)
        c.count('direct groups')
        c.seen(('direct', kind, bits, round(prob, 2)))
        # collisions of identical and different replies, with a clear signal
        if len(b.tags) > 1:
            for u in b.tags:
                u.set_power(0.0, 60.0)
            same = rng.random() < .6
            tr = b.exchange(frame, [
                (u, reply if same and rng.random() < .5 else
                 b.reply(kind, size, 0x1234 if same else k))
                for k, u in enumerate(b.tags)])
            with quiet():
                for _ in range(10):
                    r = tr.received_tag_frame(b.model.medium, t)
                    c.expect(r[1] is None, 'a reply is received in a '
                             'collision', same=same, tags=len(b.tags))
            c.count('direct collisions')
    z = sum(total) / math.sqrt(len(total))
    c.expect(abs(z) < 6.5, 'frequency of replies of all lengths', z=z)


def uncertain(c, rng, f):
    """The noise (of five) under which most replies are in doubt."""
    f = dict(X.Case(rng, **f).p)
    best = None
    for k in range(5):
        f['noise'] = -78.0 + 6 * k + rng.uniform(0, 6)
        case, out = X.Case(rng, **f), []
        c.begin(dict(kind='short run', settings={
            k: repr(v) for k, v in f.items()}))
        X.run_case(case, rng.randrange(2 ** 32),
                   [Reception(c, case.budget(), out)], max_num_events=200)
        v = sum(r[0] * (1 - r[0]) for r in out)
        if best is None or v > best[0]:
            best = v, f['noise']
    return dict(f, noise=best[1])


@check('S09', 'runs with noise chosen so that receive probabilities cover '
              '0..1; outcome of every reply against the reference '
              'probability, by kind of reply and by probability (z below 7), '
              'independence of successive outcomes, collisions; replies of '
              'every length and equal replies of several tags put on the '
              'air by hand; distinct = (kind, probability)')
def s09(c):
    rng = c.rng
    direct_reception(c, c.n(90), 300)
    rows = []
    kinds = ['fading'] * 6 + ['crowded', 'deaf', 'shortlived', 'friendly',
                              'antennas', 'any', 'flicker']
    for i in range(c.n(52)):
        kind = kinds[i % len(kinds)]
        f = W.KINDS[kind](rng)
        if kind == 'fading':
            f.update(adjust=False, read_tid=rng.random() < .8, on=5.0,
                     update=.01, num_tags=rng.choice([1, 1, 2]), gap=.0,
                     gaps=[0.0] * 4)
            f = uncertain(c, rng, f)
        case = X.Case(rng, **f)
        seed = rng.randrange(2 ** 32)
        c.begin(dict(kind=kind, seed=seed,
                     settings={k: repr(v) for k, v in case.p.items()}))
        out = []
        rec = X.run_case(case, seed, [Reception(c, case.budget(), out)],
                         max_num_events=1300)
        rows += out
        c.count('events', rec.log.n_events)
        c.seen((kind, case.p['noise'], case.p['m'], case.p['distr']))
    info = {}
    c.begin('frequencies over all runs')
    groups = {'all': rows}
    for k in ('rn16', 'epc', 'handle', 'data'):
        groups[k] = [r for r in rows if r[2] == k]
    for lo, hi in ((0, .1), (.1, .3), (.3, .5), (.5, .7), (.7, .9), (.9, .99),
                   (.99, 1)):
        groups[f'p in {lo}..{hi}'] = [r for r in rows if lo <= r[0] < hi]
    for name, g in groups.items():
        v, z = z_of(g)
        info[name] = (len(g), round(v, 1), round(z, 2))
        if v > 20:
            c.expect(abs(z) < 7, 'frequency of received replies', group=name,
                     n=len(g), z=z, got=sum(r[1] for r in g),
                     want=sum(r[0] for r in g))
            c.count('groups')
    pairs = [(a, b) for a, b in zip(rows, rows[1:])]
    v = sum(a[0] * (1 - a[0]) * b[0] * (1 - b[0]) for a, b in pairs)
    d = sum((a[1] - a[0]) * (b[1] - b[0]) for a, b in pairs)
    if v > 20:
        c.expect(abs(d / math.sqrt(v)) < 7,
                 'successive receptions are not independent',
                 z=d / math.sqrt(v))
        c.count('independence')
    c.sample(info)
    c.need('groups', 6)
    c.need('independence', 1)
    c.need('collisions', 100)
    c.need('certain', 100)
    c.need('hopeless', 1)
    c.need('direct groups', 60)
    c.need('direct collisions', 30)

from checks import settings     # noqa: E402,F401  (S08)
