"""K01..K07: the simulation kernel.

Random model programs run on the real kernel.  Each handler performs scripted
actions (schedule, call, cancel, stop, invalid requests).  A shadow list of
pending events, kept by the monitor from the calls and their return values
only, is compared with every handler invocation.
"""
import bisect
import collections
import functools
import heapq
import sys
import threading
import time as time_module
from fractions import Fraction

import numpy as np

from vlib.core import check, quiet, Violation, Inconclusive
import pysim.sim.simulator as S

MAX_EVENTS = 200_000


class Abandon(BaseException):
    """Leave a program whose trace broke another property than ours."""


class Bound:
    """Handlers as bound methods and callable objects."""

    def __init__(self, prog):
        self.prog = prog

    def method(self, sim, *args):
        self.prog.on_event(sim, args)

    def __call__(self, sim, *args):
        self.prog.on_event(sim, args)


class Profile:
    """What a program does in each handler."""

    def __init__(self, rng):
        self.kind = rng.choice(['ties', 'float', 'mixed', 'cancel', 'deep',
                                'chain', 'huge', 'burst'])
        self.fanout = {'chain': 1.0, 'cancel': 1.6, 'deep': 1.02,
                       'burst': 1.1}.get(self.kind, 1.15)
        self.n_init = {'deep': rng.randint(300, 3000),
                       'cancel': rng.randint(20, 400),
                       'chain': 1}.get(self.kind, rng.randint(1, 40))
        self.p_cancel = {'cancel': 0.75}.get(
            self.kind, rng.choice([0, .1, .3]))
        self.p_invalid = 0.0
        self.p_stop = 0.0
        self.p_future = 0.02
        self.max_events = rng.choice([20, 100, 400, 1500])
        if self.kind == 'deep':
            self.max_events = 4000

    def delay(self, rng):
        k = self.kind
        if k in ('ties', 'cancel'):
            return rng.choice([0, 0, 1, 1, 2, 0.5, 0.25, 1.0, -0.0])
        if k == 'float':
            return rng.choice([rng.random(), rng.expovariate(1e3),
                               0.1, 0.2, 0.3, np.float64(rng.random())])
        if k == 'huge':
            if rng.random() < .01:
                return float('inf')     # due, though after all others
            return rng.choice([0, 5e-324, 1e-300, 1e-9, 1, 1e6, 1e15, 1e200,
                               2 ** 53 + 1, 10 ** 17, Fraction(1, 3),
                               np.float64(.1), np.int64(7),
                               rng.random() * 10 ** rng.randint(-12, 12)])
        if k == 'deep':
            return rng.choice([rng.randint(0, 40), rng.random() * 100])
        if k == 'burst':
            return 0 if rng.random() < 0.8 else rng.randint(1, 3)
        return rng.choice([0, 1, 2, 3, 0.1, rng.random(), True, -0.0])


class Program:
    """A random model program with an online monitor of its execution."""

    def __init__(self, c, cats, profile=None, seed=None, limits=None):
        import random
        self.c = c
        self.cats = cats
        self.seed = c.rng.randrange(2 ** 48) if seed is None else seed
        self.rng = random.Random(self.seed)
        self.profile = profile or Profile(self.rng)
        self.limits = limits or {}
        self.bound = Bound(self)
        # shadow state
        self.pending = {}      # event id -> (due, seq, label, args)
        self.by_label = {}     # label -> event id
        self.order = []        # sorted (due, seq, id)
        self.cancelled = set()  # labels
        self.done = {}         # label -> count
        self.ids = set()
        self.dead_ids = []
        self.seq = 0
        self.labels = 0
        self.now = 0.0
        self.trace = []
        self.executed = 0
        self.last_handler = None
        self.init_args = None  # what the initializer was called with
        self.stopped = False
        self.stop_msg = ''
        self.finalized = 0
        self.creating = True
        self.ignore_after_stop = False
        self.sim = None
        self.budget = MAX_EVENTS
        self.raise_at = None
        self.on_each = None
        self.wanted = {}
        self.refused = 0

    # ---- verdicts
    def bad(self, cat, msg, **kw):
        if cat == 'order' and self.cats == {'once'}:
            return      # in the wrong order; still each exactly once?
        if cat in self.cats:
            self.c.fail(msg, program_seed=self.seed,
                        profile=self.profile.kind,
                        trace_tail=self.trace[-12:], **kw)
        raise Abandon()

    # ---- handlers handed to the kernel
    def plain(self, sim, *args):
        self.on_event(sim, args)

    def pick_handler(self, label):
        r = self.rng.random()
        if r < 0.25:
            return self.plain
        if r < 0.45:
            return self.bound.method
        if r < 0.6:
            return self.bound
        if r < 0.8:
            prog = self
            return lambda sim, *a: prog.on_event(sim, a)
        return functools.partial(Program.plain, self)

    def make_args(self, label):
        """(iterable given to the kernel, tuple the handler must get)."""
        n = self.rng.choice([0, 0, 1, 2, 5, 0, 0, 1, 2, 5, 20])
        want = (label,) + tuple(
            self.rng.choice([None, 1, 'x', [], 2.5, (1, 2)])
            for _ in range(n))
        r = self.rng.random()
        if r < .6:
            return want, want
        if r < .75:
            return list(want), want
        if r < .8:
            return collections.deque(want), want
        if r < .85:
            return (x for x in want), want
        if r < .88 and n == 0:
            return self.rng.choice([{label: 0}, {label}]), want
        return iter(want), want

    # ---- actions
    def schedule(self, sim):
        rng = self.rng
        label = self.labels
        self.labels += 1
        handler = self.pick_handler(label)
        given, want = self.make_args(label)
        use_call = rng.random() < 0.2
        if use_call:
            delay = 0
            if rng.random() < .5:
                eid = sim.call(handler, given)
            else:
                eid = sim.call(handler, args=given, msg='m')
        else:
            delay = self.profile.delay(rng)
            if rng.random() < .5:
                eid = sim.schedule(delay, handler, given)
            else:
                eid = sim.schedule(delay=delay, handler=handler, args=given,
                                   msg='hello')
        due = self.now + delay
        if not isinstance(eid, int) or isinstance(eid, bool) or eid <= 0:
            self.bad('once', f'event id {eid!r} is not a positive integer')
        if eid in self.ids:
            self.bad('once', f'event id {eid} was handed out twice')
        self.ids.add(eid)
        self.pending[eid] = (due, self.seq, label, want)
        self.wanted[label] = handler
        bisect.insort(self.order, (due, self.seq, eid))
        self.by_label[label] = eid
        self.seq += 1

    def forget(self, eid):
        due, seq, label, want = self.pending.pop(eid)
        i = bisect.bisect_left(self.order, (due, seq, eid))
        assert self.order[i][2] == eid
        del self.order[i]
        self.dead_ids.append(eid)
        return label

    def do_cancel(self, sim):
        rng = self.rng
        r = rng.random()
        if self.pending and r < 0.7:
            if rng.random() < .3:
                eid = self.order[0][2]            # the very next event
            elif rng.random() < .2:
                eid = self.order[-1][2]
            else:
                eid = self.order[rng.randrange(len(self.order))][2]
            ret = sim.cancel(eid)
            label = self.forget(eid)
            self.cancelled.add(label)
            if ret != 1:
                self.bad('once', f'cancelling a pending event gave {ret!r}')
        else:
            if self.dead_ids and r < .9:
                eid = rng.choice(self.dead_ids)
            else:
                eid = rng.choice([10 ** 9 + 7, None, -5, 0])
            ret = sim.cancel(eid)
            if ret != 0:
                self.bad('once', f'cancelling {eid!r}, which is not pending, '
                         f'gave {ret!r}')
            self.c.count('cancel_of_dead')

    INVALID = ['neg', 'tiny', 'neginf', 'nan', 'none', 'str_handler',
               'int_handler', 'args_int', 'args_float', 'args_obj',
               'call_none', 'call_int', 'call_args', 'npneg']

    def do_invalid(self, sim):
        rng = self.rng
        if rng.random() < .1:
            # no delay: nothing is scheduled, whatever the handler
            ret = sim.schedule(None, rng.choice([self.plain, None]))
            if ret is not None:
                self.bad('invalid', f'a request without a delay returned '
                         f'{ret!r}')
            self.c.count('requests without delay')
            return
        kind = rng.choice(self.INVALID)
        ok = self.plain
        neg = rng.choice([-1, -0.5, -1e-9, -1e300])
        past, val, typ = S.SchedulingInPastError, ValueError, TypeError
        fn, exc = {
            'neg': (lambda: sim.schedule(neg, ok), past),
            'tiny': (lambda: sim.schedule(-5e-324, ok, ()), past),
            'neginf': (lambda: sim.schedule(float('-inf'), ok), past),
            'npneg': (lambda: sim.schedule(np.float64(-2), ok), past),
            'nan': (lambda: sim.schedule(float('nan'), ok), past),
            'none': (lambda: sim.schedule(1, None), val),
            'str_handler': (lambda: sim.schedule(1, 'plain'), typ),
            'int_handler': (lambda: sim.schedule(0, 17, ()), typ),
            'args_int': (lambda: sim.schedule(1, ok, 5), typ),
            'args_float': (lambda: sim.schedule(1, ok, args=1.5), typ),
            'args_obj': (lambda: sim.schedule(1, ok, object()), typ),
            'call_none': (lambda: sim.call(None), val),
            'call_int': (lambda: sim.call(3), typ),
            'call_args': (lambda: sim.call(ok, 7), typ),
        }[kind]
        t_before = sim.time
        try:
            ret = fn()
        except exc:
            self.refused += 1
        except Exception as e:
            self.bad('invalid', f'invalid request {kind} raised '
                     f'{type(e).__name__} instead of {exc.__name__}')
        else:
            self.bad('invalid', f'invalid request {kind} was accepted '
                     f'(returned {ret!r})')
        if sim.time != t_before:
            self.bad('invalid', 'refused request changed the clock')
        self.c.count('refused_requests')

    def actions(self, sim):
        rng, pr = self.rng, self.profile
        if self.labels < pr.max_events:
            k = int(pr.fanout)
            k += rng.random() < (pr.fanout - k)
            if len(self.pending) < 2 and self.labels < pr.max_events:
                k = max(k, 1)
            if rng.random() < 0.05:
                k += rng.randint(1, 6)
            for _ in range(k):
                self.schedule(sim)
        if rng.random() < pr.p_cancel:
            for _ in range(rng.randint(1, 4)):
                self.do_cancel(sim)
        if pr.p_invalid and rng.random() < pr.p_invalid:
            self.do_invalid(sim)
        if pr.p_stop and rng.random() < pr.p_stop:
            self.stop_msg = rng.choice(['', 'enough', 'стоп', ' a b \n',
                                        'long ' * 200])
            if self.stop_msg or rng.random() < .5:
                sim.stop(self.stop_msg)
            else:
                sim.stop()
            self.stopped = True
            if rng.random() < .5:          # scheduling after stop is allowed
                self.schedule(sim)

    # ---- events
    def init(self, sim, *args):
        self.sim = sim
        self.init_args = args
        if sim.time != 0:
            self.bad('order', f'clock is {sim.time!r} at initialisation')
        for _ in range(self.profile.n_init):
            self.schedule(sim)
        while self.pending and self.rng.random() < self.profile.p_cancel / 2:
            self.do_cancel(sim)
        if self.profile.p_invalid:
            self.do_invalid(sim)
        if self.on_each:
            self.on_each(sim, None)

    def on_event(self, sim, args):
        self.budget -= 1
        if self.budget < 0:
            self.bad('once', 'more events executed than were scheduled')
        if not args:
            self.bad('once', 'handler called without its arguments')
        label = args[0]
        self.trace.append((label, sim.time))
        self.executed += 1
        eid = self.by_label.get(label)
        if label in self.cancelled:
            self.bad('once', f'cancelled event {label} was executed')
        if eid not in self.pending:
            self.bad('once', f'event {label} was executed again or is unknown')
        due, seq, _, want = self.pending[eid]
        if len(args) != len(want) or not all(
                a is b or a == b for a, b in zip(args, want)):
            self.bad('once', f'event {label} got arguments {args!r}',
                     want=want)
        if self.stopped:
            self.bad('end', 'an event was executed after a stop request')
        first = self.order[0]
        if first[2] != eid:
            self.bad('order', f'event due {due!r} (#{seq}) was executed '
                     f'although one due {first[0]!r} (#{first[1]}) is pending')
        if sim.time != due:
            self.bad('order', f'event due {due!r} runs at {sim.time!r}')
        if sim.time < self.now:
            self.bad('order', f'clock moved from {self.now!r} to '
                     f'{sim.time!r}')
        self.now = sim.time
        self.forget(eid)
        self.last_handler = self.wanted[label]
        if self.raise_at is not None and self.executed == self.raise_at:
            raise self.error
        if self.on_each:
            self.on_each(sim, label)
        self.actions(sim)

    def run(self, **kw):
        # neither changes anything about the events
        import random
        rng = random.Random(self.seed + 1)
        if rng.random() < .25:
            kw['debug'] = True
        if rng.random() < .15:
            kw['logger_config'] = S.ModelLoggerConfig(
                use_console=rng.random() < .5,
                level=rng.choice([10, 20, 50]))
        known = {'debug', 'logger_config', 'fin', 'context', 'init_args'}
        with quiet():
            if rng.random() < .15 and set(kw) <= known:
                it = self.by_setters(rng, dict(kw))
            else:
                it = S.build_simulation(
                    f'prog{self.seed}', init=self.init, **kw, **self.limits)
            return S.run_simulation(it)

    def by_setters(self, rng, kw):
        """The same on a kernel whose settings are given more than once."""
        k = S.Kernel(f'prog{self.seed}')
        wrong = []
        for last in (False, True):
            for name in ('max_sim_time', 'max_real_time', 'max_num_events'):
                value = self.limits.get(name)
                if not last:
                    value = rng.choice([None, 0, 1, 5])
                getattr(k, 'set_' + name)(value)
            k.set_initializer(*((self.init, kw.get('init_args', ())) if last
                                else (wrong.append, ())))
            if kw.get('fin') is not None:
                k.set_finalizer(kw['fin'] if last else wrong.append)
            if kw.get('context') is not None:
                k.set_context(kw['context'] if last else wrong)
        if 'logger_config' in kw:
            k.logger.setup(kw['logger_config'])
        self.c.count('kernels with repeated settings')
        got = k.max_sim_time, k.max_real_time
        want = tuple(map(self.limits.get, ('max_sim_time', 'max_real_time')))
        if got != want:
            self.bad('end', 'limits of the kernel', got=got, want=want)
        return k.build_runner(kw.get('debug', False))


def finish_program(p, stats):
    """The run ended without limits or stop: nothing may be left over."""
    if p.pending:
        p.bad('once', f'{len(p.pending)} events were never executed')


def run_programs(c, n, cats, tweak=None, after=None, **kw):
    for _ in range(n):
        p = Program(c, cats)
        if tweak:
            tweak(p)
        c.begin({'program_seed': p.seed, 'profile': p.profile.kind})
        try:
            stats, ctx, fin = p.run(**kw)
            if not p.stopped and not p.limits:
                finish_program(p, stats)
            if after:
                after(p, stats, ctx, fin)
        except Abandon:
            c.count('abandoned')
            continue
        c.count('events', p.executed)
        c.count('cancelled', len(p.cancelled))
        if p.executed > 1:
            c.seen((p.profile.kind, p.executed, len(p.cancelled),
                    tuple(p.trace[:40])))
            c.sample({'profile': p.profile.kind, 'events': p.executed,
                      'cancelled': len(p.cancelled),
                      'trace_head': p.trace[:6]})


def marathon(p):
    """Far more events than any other program has."""
    pr, rng = p.profile, p.rng
    pr.kind = rng.choice(['deep', 'deep', 'mixed', 'ties', 'float'])
    pr.n_init = rng.choice([1, 1000, 20000])
    pr.fanout, pr.p_cancel = 1.0, rng.choice([0, .1, .3])
    pr.max_events = rng.choice([35_000, 70_000])
    pr.p_future, pr.p_stop = 1e-4, 0


def mass(p):
    # most of a long queue is cancelled at once, now and again
    p.profile.kind, p.profile.fanout = 'deep', 1.2
    p.profile.n_init = p.rng.choice([800, 2000, 4000])
    p.profile.max_events, p.profile.p_cancel = 9000, 0
    every = p.rng.choice([3, 40, 300])
    p.masses = p.rng.choice([1, 1, 2, 3, 40])

    def on_each(sim, label):
        if p.executed % every == 2 and len(p.pending) > 200 and \
                p.masses > 0:
            p.masses -= 1
            ids, rng = [e[2] for e in p.order], p.rng
            k = int(len(ids) * rng.uniform(.6, .99))
            for eid in rng.choice([ids[:k], rng.sample(ids, k),
                                   ids[::-1][:k]]):
                if sim.cancel(eid) != 1:
                    p.bad('once', 'a pending event was not cancelled')
                p.cancelled.add(p.forget(eid))
            p.c.count('mass cancellations')
    p.on_each = on_each


def long_run(c, cats, depth=None, total=None):
    """A plain program with a queue and a number of events far beyond those
    of the others: its order, its cancellations and its counts."""
    rng = c.rng
    depth = depth or rng.choice([12_000, 20_000, 40_000])
    total = total or rng.choice([140_000, 160_000])
    grow = total - depth
    limit = 105_000 + rng.randint(0, 9999) \
        if 'limit' in cats else None
    c.begin(dict(long=total, depth=depth, limit=limit))
    due, seen, dead, made = [], 0, set(), 0
    bound = S.Kernel(f'long{total}')
    whole = rng.random() < .5

    def add(sim):
        nonlocal made
        d = rng.randrange(50) if whole else rng.random() * 50
        at = sim.time + d
        eid = sim.schedule(d, tick, (made,))
        heapq.heappush(due, (at, made, eid))
        ids[made] = eid
        made += 1

    def bad(cat, msg, **kw):
        if cat in cats:
            c.fail(msg, **kw)
        raise Abandon()

    def tick(sim, k):
        nonlocal seen, grow
        seen += 1
        while due and due[0][1] in dead:
            heapq.heappop(due)
        at, first, eid = heapq.heappop(due)
        del ids[first]
        if k != first:
            bad('once' if k in dead or k < first and k not in ids
                else 'order', 'the next event of a long run',
                got=k, want=first, cancelled=k in dead, seen=seen)
        if sim.time != at:
            bad('order', 'clock in a long run', got=sim.time, want=at)
        c.ticks += 1
        if grow > 0:
            grow -= 1
            add(sim)
            if seen % 7 == 0 and grow > 0:
                grow -= 1
                add(sim)
                k = rng.randrange(max(0, made - 3 * depth), made)
                if k in ids and k not in dead:
                    if sim.cancel(ids[k]) != 1:
                        bad('once', 'a pending event was not cancelled',
                            seen=seen, number=k)
                    if sim.cancel(ids[k]) != 0:
                        bad('once', 'a cancelled event was cancelled again')
                    dead.add(k)
                    c.count('cancelled in long runs')
            if seen % 5 == 0 and sim.cancel(eid) != 0:
                bad('once', 'an executed event was cancelled', seen=seen)

    ids = {}

    def init(sim):
        for _ in range(depth):
            add(sim)
        return {}
    bound.set_initializer(init)
    if limit is not None:
        bound.set_max_num_events(limit)
    try:
        with quiet():
            st, _, _ = S.run_simulation(bound.build_runner())
    except Abandon:
        c.count('abandoned')
        return
    if 'count' in cats or 'limit' in cats:
        c.eq(st.num_events_processed, seen, 'events counted in a long run')
    if limit is not None:
        c.eq(seen, limit, 'events executed up to the limit')
        c.eq(st.exit_reason, S.ExitReason.REACHED_EVENTS_LIMIT,
             'reason of the end of a long run')
    elif {'once', 'count'} & set(cats):
        c.eq(seen, made - len(dead), 'events executed in a long run')
        c.eq(st.exit_reason, S.ExitReason.NO_MORE_EVENTS,
             'reason of the end of a long run')
    c.count('events in long runs', seen)
    c.seen(('long', total, depth, seen, len(dead)))


def rfid_limits(c):
    """The limits of an RFID run are those of its kernel."""
    import numpy as np
    from vlib import rfidrec as X
    from pysim.models.rfid import handlers
    rng = c.rng

    def ready(seed):
        np.random.seed(seed)
        with quiet():
            return X.cfg.create_model(speed=40.0, num_tags=2)

    def state(model):
        r, st = model.reader, model.statistics
        return (r.kernel.time if r.kernel else None, r.state.name, r.q,
                st.num_tags_created, model.num_tags_simulated,
                len(model.tags), len(st.tags_history))
    for i in range(c.n(14)):
        limits = [dict(max_num_events=rng.choice([1, 2, 60, 500])),
                  dict(max_sim_time=rng.choice([.25, .7, 1.1])),
                  dict(max_num_events=rng.randint(1, 900),
                       max_sim_time=rng.uniform(.05, 1.3)),
                  dict(max_num_events=0), dict(max_sim_time=0.0),
                  dict(max_real_time=(1e-9, 0.0)[i // 7 % 2]), {}][i % 7]
        seed = rng.randrange(2 ** 32)
        c.begin(dict(rfid=limits, seed=seed))
        model = ready(seed)
        with quiet():
            X.cfg.run_model(model, S.ModelLoggerConfig(), **limits)
        got = state(model)
        if 'max_real_time' in limits:
            c.expect(got[4] == 0, 'the real-time limit of an RFID run is '
                     'ignored', limits=limits, end=got)
        else:
            model = ready(seed)
            with quiet():
                st, _, fin = S.run_simulation(S.build_simulation(
                    'RFID', init=handlers.start_simulation, context=model,
                    logger_config=S.ModelLoggerConfig(), **limits))
            c.eq(got, state(model), 'end of an RFID run with limits',
                 limits=limits)
            c.seen(('rfid', st.exit_reason.name, st.num_events_processed))
        c.count('rfid runs with limits')


RULE = ('random model programs (8 profiles of delays, fan-out, cancellation, '
        'queue depth) executed on the kernel; non-trivial: at least two '
        'events executed; distinct by the executed trace')


@check('K01', RULE)
def k01(c):
    run_programs(c, c.n(500), {'order'})
    run_programs(c, c.n(1), {'order'}, marathon)
    run_programs(c, c.n(10), {'order'}, mass)
    long_run(c, {'order'})
    long_run(c, {'order'}, 110_000, 130_000)
    if c.thorough:
        long_run(c, {'order'}, 50_000, 1_200_000)
    c.need('mass cancellations', 8)
    c.need('events', 5000)


@check('K02', RULE)
def k02(c):
    def tweak(p):
        if p.profile.p_cancel == 0:
            p.profile.p_cancel = .4
        if p.rng.random() < .3:
            p.profile.kind, p.profile.p_cancel = 'cancel', .8
            p.profile.fanout, p.profile.n_init = 2.0, 300
            p.profile.max_events = 3000
    run_programs(c, c.n(400), {'once'}, tweak)
    run_programs(c, c.n(1), {'once'}, marathon)
    run_programs(c, c.n(14), {'once'}, mass)
    long_run(c, {'once'})
    if c.thorough:
        long_run(c, {'once'}, 50_000, 1_200_000)
    c.need('mass cancellations', 10)
    c.need('cancelled', 500)
    c.need('cancel_of_dead', 500)


@check('K03', RULE + '; handlers also make invalid scheduling requests')
def k03(c):
    def tweak(p):
        p.profile.p_invalid = .4
        p.profile.max_events = min(p.profile.max_events, 400)
        p.profile.n_init = min(p.profile.n_init, 100)
    # an accepted invalid request shows as a foreign event ('once') or as a
    # clock that moves backwards ('order')
    run_programs(c, c.n(600), {'invalid', 'once', 'order'}, tweak)

    def both(p):
        marathon(p)
        p.profile.p_invalid = .02
    run_programs(c, c.n(1), {'invalid', 'once', 'order'}, both)
    c.need('refused_requests', 1000)
    c.need('requests without delay', 100)


# --------------------------------------------------------------------------
class FakeTime:
    """Replaces the process clocks; advanced by the handlers."""
    NAMES = ('time', 'monotonic', 'perf_counter')

    def __init__(self):
        self.now = 4096.0
        self.calls = 0

    def read(self):
        self.calls += 1
        return self.now

    def __enter__(self):
        self.saved = {n: getattr(time_module, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(time_module, n, self.read)
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(time_module, n, f)


def limited_run(c, cats, far=False):
    """One program with random limits; checks how and when it ended."""
    p = Program(c, cats)
    rng = p.rng
    p.profile.max_events = min(p.profile.max_events, 400)
    p.profile.n_init = min(p.profile.n_init, 60)
    if far:
        marathon(p)
    mode = rng.choice(['none', 'sim', 'num', 'real', 'stop', 'sim+num',
                       'num+stop', 'sim+stop', 'all', 'sim', 'num'])
    use = set(mode.split('+'))
    if mode == 'all':
        use = {'sim', 'num', 'real', 'stop'}
    if far:
        mode, use = 'far', {'num'} if rng.random() < .7 else set()
    if 'sim' in use:
        p.limits['max_sim_time'] = rng.choice(
            [0, 1, 2, 3, 2.0, 5, 10, 0.5, rng.random() * 20, 1e9])
    if 'num' in use:
        p.limits['max_num_events'] = rng.choice(
            [0, 1, 2, 3, 10, rng.randint(1, 300), 10 ** 6])
        if far:
            p.limits['max_num_events'] = rng.choice([32768, 33_333, 65536])
    if 'stop' in use:
        p.profile.p_stop = rng.choice([.01, .05, .3])
    c.begin({'program_seed': p.seed, 'mode': mode, 'limits': dict(p.limits)})
    with FakeTime() as ft:
        t0 = ft.now
        if 'real' in use:
            p.limits['max_real_time'] = rng.choice(
                [0, 0.5, 1, 4, 16, 1024])

        def on_each(sim, label):
            elapsed = ft.now - t0
            if label is not None:
                lim = p.limits.get('max_real_time')
                if lim is not None and ft.calls and elapsed > lim:
                    p.bad('end', 'an event was started after the real-time '
                          f'limit {lim} (elapsed {elapsed})')
                lim = p.limits.get('max_num_events')
                if lim is not None and p.executed > lim:
                    p.bad('end', f'event number {p.executed} was executed, '
                          f'limit {lim}')
                lim = p.limits.get('max_sim_time')
                if lim is not None and p.prev_now > lim:
                    p.bad('end', f'an event was executed at {sim.time!r} '
                          f'after one at {p.prev_now!r}, limit {lim!r}')
                p.prev_now = sim.time
            if 'real' in use:
                ft.now += rng.choice([0, .125, .25])
        p.prev_now = 0.0
        p.on_each = on_each
        stats, ctx, fin = p.run()
        elapsed = ft.now - t0
        real_seen = ft.calls > 0
    # ---- the reason must hold
    L = p.limits
    holds = set()
    if not p.pending:
        holds.add('NO_MORE_EVENTS')
    if p.stopped:
        holds.add('STOPPED')
    if 'max_sim_time' in L and p.now > L['max_sim_time']:
        holds.add('REACHED_SIM_TIME_LIMIT')
    if 'max_num_events' in L and p.executed >= L['max_num_events']:
        holds.add('REACHED_EVENTS_LIMIT')
    if 'max_real_time' in L and elapsed > L['max_real_time']:
        holds.add('REACHED_REAL_TIME_LIMIT')
    # a limit may also stop the run in front of the event that crosses it
    early = set()
    if 'max_sim_time' in L and p.pending and \
            p.order[0][0] > L['max_sim_time']:
        early.add('REACHED_SIM_TIME_LIMIT')
    name = getattr(stats.exit_reason, 'name', None)
    if 'max_real_time' in L and not real_seen:
        return
    if not holds and not early:
        p.bad('end', f'the run ended ({name}) although {len(p.pending)} '
              'events are pending and no stopping condition holds',
              executed=p.executed, now=p.now)
    if name not in holds | early:
        p.bad('end', f'exit reason {name}, but what holds is '
              f'{sorted(holds | early)}', executed=p.executed)
    c.count('exit_' + str(name))
    c.count('events', p.executed)
    c.seen((mode, name, p.executed, tuple(p.trace[:20])))
    c.sample({'mode': mode, 'limits': L, 'events': p.executed, 'exit': name})


@check('K04', 'random model programs with random combinations of limits '
       '(on a controlled process clock) and stop requests; distinct by mode, '
       'exit reason and trace')
def k04(c):
    for i in range(c.n(2001)):
        try:
            limited_run(c, {'end'}, i % 2001 == 2000)
        except Abandon:
            c.count('abandoned')
    long_run(c, {'limit'})
    rfid_limits(c)
    # a stop or an empty queue right at the start
    for kind in ('stop_init', 'empty', 'stop_init_empty'):
        c.begin({'special': kind})
        ran = []

        def init(sim):
            if kind != 'empty':
                sim.stop('at once')
            if kind == 'stop_init':
                sim.schedule(1, lambda s: ran.append(1))
        with quiet():
            st, _, _ = S.run_simulation(S.build_simulation('sp', init=init))
        want = {'stop_init': {'STOPPED'}, 'empty': {'NO_MORE_EVENTS'},
                'stop_init_empty': {'STOPPED', 'NO_MORE_EVENTS'}}[kind]
        c.expect(not ran, 'an event ran after a stop in the initializer')
        c.expect(st.exit_reason.name in want,
                 f'{kind}: exit reason {st.exit_reason}')
    for r in ('NO_MORE_EVENTS', 'STOPPED', 'REACHED_SIM_TIME_LIMIT',
              'REACHED_EVENTS_LIMIT'):
        c.need('exit_' + r, 5)


class ModelError(Exception):
    pass


class ModelStop(BaseException):
    """What ends a model from outside, as KeyboardInterrupt does."""


def errors(rng):
    return rng.choice([
        ModelError('boom'), ModelError('boom'), KeyError('k'), ValueError(),
        RuntimeError('model'), IndexError(), AttributeError('a'),
        TypeError('t'), AssertionError(), OSError(2, 'no'), EOFError(),
        S.SchedulingInPastError('p'), StopAsyncIteration(), ModelStop(),
        KeyboardInterrupt(), SystemExit(3), ZeroDivisionError(),
        NotImplementedError('n'), StopIteration('s')])


def results_run(c, cats, far=False):
    p = Program(c, cats)
    rng = p.rng
    p.profile.max_events = min(p.profile.max_events, 300)
    p.profile.n_init = min(p.profile.n_init, 50)
    if far:
        marathon(p)
    elif rng.random() < .3:
        p.profile.p_stop = .05
    if far:
        if rng.random() < .5:
            p.limits['max_num_events'] = rng.randint(33_000, 70_000)
    elif rng.random() < .3:
        p.limits['max_num_events'] = rng.randint(0, 100)
    if rng.random() < .2 and not far:
        p.limits['max_sim_time'] = rng.random() * 20
    if rng.random() < .1 and not far:
        p.profile.n_init = 0
    ctx_in = rng.choice([None, {}, {'a': 1}, object(), []])
    if isinstance(ctx_in, (dict, list)):
        ctx_in = type(ctx_in)(ctx_in)
    replace_at = rng.choice([0, 0, 1, 2, rng.randint(1, 60)]) \
        if rng.random() < .4 else None
    p.replaced = False
    newctx = object()
    init_args = tuple(range(rng.choice([0, 1, 2, 3, rng.randint(0, 40)])))
    given = rng.choice([init_args, init_args, list(init_args),
                        iter(init_args), (x for x in init_args)])
    with_fin = rng.random() < .7
    fin_ret = rng.choice([None, 42, object(), {'x': 1}, [], {}, 0, '', False,
                          0.0, ()])
    fails = rng.random() < .15 and not far
    if fails:
        p.raise_at = rng.choice([rng.randint(1, 30), 0, -1])
        p.error = errors(rng)
    c.begin({'program_seed': p.seed, 'fin': with_fin, 'replace': replace_at,
             'limits': dict(p.limits), 'fails': fails})
    seen_ctx = []

    def on_each(sim, label):
        if p.raise_at == 0 and label is None:
            raise p.error           # of the initializer
        if p.executed == replace_at:
            sim.context = newctx
            p.replaced = True
            del seen_ctx[:]
        seen_ctx.append(sim.context)
        if p.finalized:
            p.bad('result', 'an event was executed after the finalizer')
    p.on_each = on_each

    def fin(sim):
        p.finalized += 1
        p.fin_ctx, p.fin_time = sim.context, sim.time
        p.fin_executed = p.executed
        if p.raise_at == -1:
            raise p.error           # of the finalizer
        return fin_ret
    try:
        stats, ctx, ret = p.run(
            context=ctx_in, init_args=given, fin=fin if with_fin else None)
    except (Abandon, Violation):
        raise
    except BaseException as e:
        # Python does not let an iterator raise StopIteration
        if isinstance(getattr(p, 'error', None), StopIteration) and \
                isinstance(e, RuntimeError):
            e = e.__cause__
        if not fails or e is not p.error:
            raise
        where = {0: 'initializer', -1: 'finalizer'}.get(p.raise_at, 'event')
        c.count('propagated_errors')
        c.count('error of ' + where)
        if p.raise_at > 0 and p.executed != p.raise_at:
            p.bad('result', 'the run went on after an exception')
        c.seen(('error', p.executed, p.raise_at))
        return
    if fails and (p.executed >= p.raise_at > 0 or p.raise_at == 0 or
                  p.raise_at == -1 and with_fin):
        p.bad('result', 'an exception of a handler was swallowed')

    def want(cond, msg, **kw):
        if not cond:
            p.bad('result', msg, **kw)
    want(p.init_args == init_args, 'wrong initializer arguments')
    want(stats.num_events_processed == p.executed,
         f'reported {stats.num_events_processed} events, '
         f'{p.executed} were executed')
    want(stats.sim_time == p.now,
         f'reported time {stats.sim_time!r}, last event at {p.now!r}')
    want(stats.last_handler == p.last_handler, 'wrong last handler')
    want(stats.stop_message == p.stop_msg,
         f'stop message {stats.stop_message!r}, want {p.stop_msg!r}')
    want(stats.time_elapsed >= 0, 'negative elapsed time')
    if with_fin:
        want(p.finalized == 1, f'finalizer ran {p.finalized} times')
        want(p.fin_executed == p.executed, 'finalizer ran too early')
        want(p.fin_time == p.now, 'finalizer saw another clock')
        want(p.fin_ctx is ctx, 'finalizer saw another context')
        want(ret is fin_ret, 'finalizer result was not returned')
    else:
        want(p.finalized == 0 and ret is None, 'result without a finalizer')
    if p.replaced:
        want(ctx is newctx, 'context set by the model was not returned')
    elif ctx_in is not None:
        want(ctx is ctx_in, 'supplied context was not returned')
    else:
        want(ctx == {} and isinstance(ctx, dict),
             'default context is not an empty dictionary')
    want(all(x is ctx for x in seen_ctx),
         'handlers saw different contexts')
    c.count('results')
    c.count('finalized', p.finalized)
    c.seen((p.executed, with_fin, replace_at, repr(ctx_in)[:8], stats.sim_time))
    c.sample({'events': p.executed, 'time': stats.sim_time,
              'exit': stats.exit_reason.name})


@check('K05', 'random model programs with and without finalizer, context, '
       'limits and failing handlers; distinct by event count and set-up')
def k05(c):
    for i in range(c.n(1701)):
        try:
            results_run(c, {'result'}, i % 1701 == 1700)
        except Abandon:
            c.count('abandoned')
    long_run(c, {'count'})
    if c.thorough:
        long_run(c, {'count'}, 50_000, 1_200_000)
    # default contexts are not shared between runs
    boxes = []
    for _ in range(2):
        with quiet():
            _, ctx, _ = S.run_simulation(S.build_simulation(
                'ctx', init=lambda s: s.context.setdefault('n', 1)))
        boxes.append(ctx)
    c.expect(boxes[0] is not boxes[1], 'default context shared between runs')
    # elapsed time is the real time between start and end
    with FakeTime() as ft, quiet():
        def init(sim):
            ft.now += 2

            def h(s):
                ft.now += 4
            sim.call(h)
            sim.schedule(3, h)
        built = S.build_simulation('t', init=init)
        ft.now += 1000      # the run has not started yet
        st, _, _ = S.run_simulation(built)
        if ft.calls:
            c.close(st.time_elapsed, 10.0, 'reported elapsed real time')
    c.need('results', 100)
    c.need('finalized', 50)
    c.need('propagated_errors', 5)


# --------------------------------------------------------------------------
def queue_case(c, rng):
    kind = rng.choice(['small', 'ties', 'neg', 'float', 'deep', 'cancel'])
    n_ops = {'deep': 4000, 'cancel': 1500}.get(kind, rng.randint(5, 300))
    q = S.EventQueue()
    live = {}           # id -> (time, seq, task)
    order = []          # sorted (time, seq, id)
    dead, seq, ids = [], 0, set()
    c.begin({'kind': kind, 'n_ops': n_ops})
    p_push = {'deep': .6, 'cancel': .5}.get(kind, rng.choice([.4, .5, .6]))
    log = []

    def audit():
        c.eq(len(q), len(live), 'length of the queue', log=log[-12:])
        c.eq(bool(q.empty), not live, 'emptiness of the queue', log=log[-12:])
    for i in range(n_ops):
        r = rng.random()
        if r < p_push:
            t = {'ties': lambda: rng.choice([1, 1.0, 2, 0]),
                 'neg': lambda: rng.randint(-50, 50),
                 'float': lambda: rng.choice(
                     [rng.random(), rng.gauss(0, 1e6), float('inf'), -1e308]),
                 }.get(kind, lambda: rng.choice(
                     [rng.randint(0, 9), rng.random() * 10]))()
            task = rng.choice(['a', 0, '', False, (), ('h', 1), {'d': 2},
                               object(), [], i])
            eid = q.push(t, task)
            c.expect(eid not in ids, 'event id handed out twice', eid=eid)
            ids.add(eid)
            live[eid] = (t, seq, task)
            bisect.insort(order, (t, seq, eid))
            seq += 1
            log.append(('push', t, eid))
        elif r < p_push + (.4 if kind == 'cancel' else .12):
            if live and rng.random() < .8:
                eid = rng.choice(order)[2]
                if rng.random() < .3:
                    eid = order[0][2]
                q.cancel(eid)
                t, s, _ = live.pop(eid)
                del order[bisect.bisect_left(order, (t, s, eid))]
                dead.append(eid)
                c.count('queue_cancels')
            else:
                eid = rng.choice(dead[-50:] + [None, -1, 10 ** 9])
                q.cancel(eid)
            log.append(('cancel', eid))
        elif r < p_push + .4 or not rng.random() < .03:
            log.append(('pop',))
            if not live:
                try:
                    x = q.pop()
                except KeyError:
                    c.count('empty_pops')
                else:
                    c.fail('pop of an empty queue returned something',
                           got=x, log=log[-12:])
            else:
                got = q.pop()
                t, s, eid = order.pop(0)
                _, _, task = live.pop(eid)
                dead.append(eid)
                c.expect(isinstance(got, (tuple, list)) and len(got) == 3 and
                         got[0] == t and got[1] == eid and got[2] is task,
                         'pop did not return the first live entry',
                         got=got, want=(t, eid, task), log=log[-12:])
                c.count('pops')
        elif rng.random() < .3:
            q.clear()
            dead.extend(live)
            live.clear()
            order.clear()
            log.append(('clear',))
            c.count('clears')
        if kind in ('small', 'ties', 'neg') or rng.random() < .02:
            audit()
        if rng.random() < .03:
            got = q.to_list()
            try:
                pairs = sorted((e[0], e[1]) for e in got)
            except Exception:
                pairs = got
            c.eq(pairs, sorted((t, e) for e, (t, _, _) in live.items()),
                 'listing of the queue', log=log[-12:])
            c.count('listings')
    audit()
    while live:
        t, eid, task = q.pop()
        wt, ws, we = order.pop(0)
        wtask = live.pop(we)[2]
        c.expect((t, eid) == (wt, we) and task is wtask,
                 'drain order', got=(t, eid), want=(wt, we))
        c.count('pops')
    audit()
    c.seen((kind, tuple(log[:60]), len(log)))
    c.sample({'kind': kind, 'ops': log[:8]})


def mass_case(c, rng, n=None):
    """Thousands of cancellations between pushes and pops: whatever the
    queue does with the dead entries, the live ones stay."""
    q, live, seq = S.EventQueue(), {}, 0
    n = n or rng.choice([600, 1500, 4000])
    c.begin({'kind': 'mass', 'n': n})
    order = []                    # a lazy heap of (time, seq, id)

    def push(t):
        nonlocal seq
        task = ('task', seq)
        eid = q.push(t, task)
        c.expect(eid not in live, 'event id handed out twice', eid=eid)
        live[eid] = (t, seq, task)
        heapq.heappush(order, (t, seq, eid))
        seq += 1

    def pop():
        while order[0][2] not in live:
            heapq.heappop(order)
        t, _, eid = heapq.heappop(order)
        _, _, task = live.pop(eid)
        got = q.pop()
        c.expect(tuple(got[:2]) == (t, eid) and got[2] is task,
                 'pop did not return the first live entry', got=got,
                 want=(t, eid, task), n=n, live=len(live))
        c.count('pops')

    def cancel(ids):
        for eid in ids:
            q.cancel(eid)
            del live[eid]
            c.count('queue_cancels')

    def audit():
        c.eq(len(q), len(live), 'length after mass cancellation', n=n)
        c.eq(bool(q.empty), not live, 'emptiness after mass cancellation')
        c.eq(sorted((e[0], e[1]) for e in q.to_list()),
             sorted((t, e) for e, (t, _, _) in live.items()),
             'listing after mass cancellation', n=n)
    now = 0.0
    for _ in range(rng.randint(2, 4)):
        for _ in range(n):
            push(now + rng.choice([rng.randint(0, 9), rng.random() * 10]))
        ids = sorted(live, key=lambda e: live[e][:2])
        how = rng.choice(['front', 'back', 'random', 'all'])
        k = int(len(ids) * rng.uniform(.5, .98))
        dying = {'front': ids[:k], 'back': ids[-k:], 'all': ids,
                 'random': rng.sample(ids, k)}[how]
        rng.shuffle(dying)
        step = max(1, len(dying) // rng.choice([1, 3, 40]))
        for i in range(0, len(dying), step):
            cancel([e for e in dying[i:i + step] if e in live])
            audit()
            for _ in range(rng.choice([0, 1, 3])):
                push(now + rng.random() * 10)
            if live and rng.random() < .5:
                pop()
        for _ in range(min(len(live), rng.choice([0, 5, n // 4]))):
            pop()
        c.count('mass cancellations')
        c.seen(('mass', n, how, len(dying), len(live)))
    while live:
        pop()
    audit()
    c.sample({'kind': 'mass', 'n': n})


def deep_queue(c, rng, n):
    """One long queue, filled, partly cancelled, refilled and emptied."""
    q, live = S.EventQueue(first_id=rng.choice([0, 1, 1, 10 ** 6])), {}
    c.begin({'kind': 'deep', 'n': n})
    heap = []

    def fill(k, t0, falling=False):
        for i in range(k):
            t = t0 + (k - i if falling else rng.choice(
                [rng.randint(0, 99), rng.random() * 100]))
            eid = q.push(t, (t, i))
            c.expect(eid not in live, 'event id handed out twice', eid=eid)
            live[eid] = (t, i)
            heapq.heappush(heap, (t, eid))

    def drain(k):
        last = None
        for _ in range(k):
            while heap[0][1] not in live:
                heapq.heappop(heap)
            t, eid = heapq.heappop(heap)
            got = q.pop()
            c.expect(tuple(got[:2]) == (t, eid) and got[2] == live.pop(eid),
                     'pop did not return the first live entry', got=got,
                     want=(t, eid), n=n, live=len(live))
            last = t
        return last
    fill(n, 0.0)
    for eid in rng.sample(sorted(live), n // 10):
        q.cancel(eid)
        del live[eid]
    c.eq(len(q), len(live), 'length of a long queue')
    now = drain(n // 5)
    fill(n, now)
    c.eq(len(q), len(live), 'length of a long queue')
    c.eq(sorted((e[0], e[1]) for e in q.to_list()),
         sorted((t[0], e) for e, t in live.items()), 'list of a long queue')
    now = drain(len(live))
    c.expect(bool(q.empty) and len(q) == 0, 'a long queue is empty at last')
    fill(n, now, True)
    drain(n)
    c.count('deep queues')
    c.seen(('deep', n))


@check('K06', 'random operation sequences on the event queue against a '
       'sorted-list model; distinct by the operation sequence')
def k06(c):
    for _ in range(c.n(420)):
        queue_case(c, c.rng)
    for _ in range(c.n(12)):
        mass_case(c, c.rng)
    for n in (12_000, 110_000) + (250_000,) * c.thorough:
        deep_queue(c, c.rng, n)
    # the kernel's view of the future lists live entries only
    for _ in range(c.n(40)):
        p = Program(c, {'list'})
        p.profile.max_events = 80
        p.profile.p_cancel = .6
        c.begin({'future_events': p.seed})
        k = S.Kernel(f'fut{p.seed}')
        k.set_initializer(p.init)

        def on_each(sim, label):
            got = k.future_events()
            try:
                pairs = sorted((e[0], e[1]) for e in got)
            except Exception:
                pairs = got
            want = sorted((d, i) for i, (d, _, _, _) in p.pending.items())
            if pairs != want:
                p.bad('list', 'future events', got=pairs, want=want)
            c.count('future_lists')
        p.on_each = on_each
        try:
            with quiet():
                S.run_simulation(k.build_runner())
        except Abandon:
            c.count('abandoned')
    for k, m in (('pops', 5000), ('queue_cancels', 500), ('empty_pops', 20),
                 ('clears', 20), ('listings', 100), ('future_lists', 100)):
        c.need(k, m)


# --------------------------------------------------------------------------
def alone(c, seed, stop):
    p = Quiet(c, set(), seed=seed)
    prep(p, stop)
    st, ctx, _ = p.run()
    return snapshot(p, st, ctx)


def prep(p, stop):
    p.profile.max_events = min(p.profile.max_events, 250)
    p.profile.n_init = min(p.profile.n_init, 60)
    if stop == 'stop':
        p.profile.p_stop = .03
    elif stop == 'num':
        p.limits['max_num_events'] = 37
    elif stop == 'time':
        p.limits['max_sim_time'] = 2.5


def snapshot(p, st, ctx):
    return (tuple(p.trace), st.num_events_processed, st.sim_time,
            st.exit_reason.name, st.stop_message, tuple(sorted(p.ids)),
            p.ctx0, repr(ctx))


class Quiet(Program):
    """A program that only records (its own monitor off)."""

    def init(self, sim, *args):
        ctx = sim.context        # the default context: an empty dictionary
        self.ctx0 = repr(ctx)
        self.note(sim)
        super().init(sim, *args)
        self.note(sim)

    def note(self, sim):
        ctx = sim.context
        if isinstance(ctx, dict):
            ctx[self.seed] = self.executed
            ctx['last'] = self.executed

    def on_event(self, sim, args):
        self.note(sim)
        super().on_event(sim, args)
        self.note(sim)

    def bad(self, cat, msg, **kw):
        self.c.count('inner_mismatch')
        raise Abandon()


@check('K07', 'each program runs alone and then after, inside and in threads '
       'with others; non-trivial: both runs have events; distinct by trace')
def k07(c):
    rng = c.rng
    old = sys.getswitchinterval()
    try:
        for rnd in range(c.n(200)):
            k = rng.randint(2, 5)
            specs = [(rng.randrange(2 ** 40),
                      rng.choice([None, None, 'stop', 'num', 'time']))
                     for _ in range(k)]
            mode = rng.choice(['threads', 'nested', 'lazy', 'sequence'])
            c.begin({'mode': mode, 'specs': specs})
            try:
                base = [alone(c, *s) for s in specs]
            except Abandon:
                c.count('abandoned')
                continue
            progs = [Quiet(c, set(), seed=s[0]) for s in specs]
            for p, s in zip(progs, specs):
                prep(p, s[1])
            got = [None] * k
            errs = []

            def go(i):
                try:
                    it = S.build_simulation(
                        'same-name', init=progs[i].init, **progs[i].limits)
                    st, ctx, _ = S.run_simulation(it)
                    got[i] = snapshot(progs[i], st, ctx)
                except BaseException as e:
                    errs.append((i, e))
            with quiet():
                if mode == 'sequence':
                    for i in range(k):
                        go(i)
                elif mode == 'lazy':
                    its = [S.build_simulation('n', init=p.init, **p.limits)
                           for p in progs]
                    for i in reversed(range(k)):
                        try:
                            st, ctx, _ = S.run_simulation(its[i])
                            got[i] = snapshot(progs[i], st, ctx)
                        except BaseException as e:
                            errs.append((i, e))
                elif mode == 'nested':
                    # program i+1 runs inside the third event of program i
                    def hook(i):
                        def on_each(sim, label):
                            p = progs[i]
                            if p.executed >= 3 and not p.nested_done and \
                                    label is not None:
                                p.nested_done = True
                                before = sim.time
                                go(i + 1)
                                if sim.time != before:
                                    errs.append((i, 'clock changed'))
                        return on_each
                    for i in range(k):
                        progs[i].nested_done = False
                        if i + 1 < k:
                            progs[i].on_each = hook(i)
                    go(0)
                    for i in range(k):        # too short to nest the next
                        if got[i] is None and not errs:
                            go(i)
                else:
                    sys.setswitchinterval(1e-5)
                    ths = [threading.Thread(target=go, args=(i,))
                           for i in range(k)]
                    for t in ths:
                        t.start()
                    for t in ths:
                        t.join(60)
                    sys.setswitchinterval(old)
                    if any(t.is_alive() for t in ths):
                        raise Inconclusive('threads did not finish')
            for i in range(k):
                if got[i] != base[i]:
                    c.fail('a simulation behaves differently next to others',
                           mode=mode, index=i,
                           alone=base[i][1:5] + base[i][6:],
                           together=got[i] and got[i][1:5] + got[i][6:],
                           errors=[repr(e) for e in errs])
            c.count('compared_runs', k)
            c.count('mode_' + mode)
            c.seen((mode, tuple(b[0][:10] for b in base)))
            c.sample({'mode': mode, 'runs': [b[1:4] for b in base]})
    finally:
        sys.setswitchinterval(old)
    c.need('compared_runs', 50)
