"""Recorder of whole RFID runs.

The public Simulator.schedule/call are wrapped so that every event handler is
observed before and after it runs; Reader.receive is wrapped to see which
reply the reader accepted.  Everything else is read from public attributes.
"""
import contextlib
import copy
import random

import numpy as np

from vlib import linkref as L
from vlib import refstd as R
from vlib.core import quiet
import pysim.models.rfid.configurator as cfg
import pysim.models.rfid.epcstd as std
import pysim.models.rfid.objects as obj
import pysim.sim.simulator as sim
from pysim.sim.logger import ModelLoggerConfig

DRS = {'8': std.DivideRatio.DR_8, '64/3': std.DivideRatio.DR_643}
MS = {1: std.TagEncoding.FM0, 2: std.TagEncoding.M2, 4: std.TagEncoding.M4,
      8: std.TagEncoding.M8}
SELS = {'ALL': std.SelFlag.ALL, '~SL': std.SelFlag.NOT_SEL,
        'SL': std.SelFlag.SEL}
SESS = [std.Session.S0, std.Session.S1, std.Session.S2, std.Session.S3]
TARGETS = {'A': std.InventoryFlag.A, 'B': std.InventoryFlag.B}
TEMPS = {False: std.TempRange.NOMINAL, True: std.TempRange.EXTENDED}
OFF = obj.Tag.State.OFF
IN_ROUND = (obj.Tag.State.ARBITRATE, obj.Tag.State.REPLY)
FLAG = {std.InventoryFlag.A: 'A', std.InventoryFlag.B: 'B', None: None}
KINDS = ((std.QueryReply, 'rn16'), (std.AckReply, 'epc'),
         (std.ReqRNReply, 'handle'), (std.ReadReply, 'data'))


def reply_kind(reply):
    for cls, name in KINDS:
        if isinstance(reply, cls):
            return name
    return '?'


def reply_bitlen(reply):
    k = reply_kind(reply)
    n = len(reply.epc) if k == 'epc' else \
        len(reply.memory) if k == 'data' else 0
    return R.reply_bits(k, n)


class TagSnap:
    __slots__ = ('state', 'slot', 'rn', 'q', 'flags', 'power', 'pos', 'blf',
                 'enc', 'trext')

    def __init__(self, tag):
        self.state = tag.state
        self.slot, self.rn, self.q = tag.slot_counter, tag.rn, tag.q
        self.flags = (FLAG.get(tag.s0, '?'), FLAG.get(tag.s1, '?'),
                      FLAG.get(tag.s2, '?'), FLAG.get(tag.s3, '?'))
        self.power = None if tag.power is None else float(tag.power)
        self.pos = tuple(float(x) for x in tag.pos)
        self.blf, self.enc, self.trext = tag.blf, tag.encoding, tag.trext


class ReaderSnap:
    __slots__ = ('power', 'state', 'q', 'q_fp', 'target', 'antenna', 'round',
                 't_on')

    def __init__(self, r):
        self.power = r.power
        self.state = r.state
        self.q, self.q_fp, self.target = r.q, r.q_fp, r.target
        self.antenna = r.antenna_index
        rnd = r.inventory_round
        self.round = None if rnd is None else \
            (rnd.index, rnd.slot.index if rnd.slot is not None else None)
        self.t_on = r.time_last_turned_on


class Exchange:
    """One command and its replies as seen on the air."""
    __slots__ = ('obj', 'start', 'frame', 'bits', 'cmd', 'replies', 'reader',
                 'end', 'ended_by', 'received', 'outcome_known', 'tags',
                 'end_tags', 'end_reader', 'index', 'rp', 'present_at_end',
                 'round', 'before_end_reader', 'attrs', 'reply_bits',
                 'reply_durations', 'before_tags', 'freqs')


class Event:
    __slots__ = ('t', 'name', 'r0', 'r1', 'tags0', 'tags1', 'present0',
                 'present1', 'tr0', 'tr1', 'received', 'listeners')


class Log:
    def __init__(self):
        self.events = []        # only if keep
        self.exchanges = []
        self.entered = []       # (time, tag)
        self.left = []          # (time, tag)
        self.listeners = []     # (time, kind, round, slot)
        self.on_off = []        # (time, on?)
        self.n_events = 0
        self.last_time = 0.0
        self.exc = None
        self.stats = None
        self.model = None
        self.intervals = []


class Recorder:
    """observer(event) is called after every event; it may raise."""

    def __init__(self, model, observers=(), snaps=True):
        self.model, self.observers = model, observers
        self.log = Log()
        self.log.model = model
        self.received_now = []
        self.cur = None
        self.snaps = snaps
        self._prev_tags = {}

    # -- event hooks ---
    def wrap(self, handler):
        if not callable(handler):
            return handler
        rec = self

        def observed(kernel, *args, **kwargs):
            if getattr(kernel, 'context', None) is not rec.model:
                return handler(kernel, *args, **kwargs)
            e = rec.before(kernel, getattr(handler, '__name__', '?'))
            handler(kernel, *args, **kwargs)
            rec.after(kernel, e)
        return observed

    def before(self, kernel, name):
        m, log = self.model, self.log
        e = Event()
        e.t, e.name = kernel.time, name
        e.r0 = ReaderSnap(m.reader)
        e.present0 = list(m.tags)
        e.tags0 = {t: TagSnap(t) for t in e.present0} if self.snaps else \
            dict.fromkeys(e.present0)
        e.tr0 = m.transaction
        self.received_now = []
        log.listeners_mark = len(log.listeners)
        self.now = kernel.time
        return e

    def after(self, kernel, e):
        m, log = self.model, self.log
        e.r1 = ReaderSnap(m.reader)
        e.present1 = list(m.tags)
        both = dict.fromkeys(e.present1)
        both.update(dict.fromkeys(e.present0))
        e.tags1 = {t: TagSnap(t) for t in both} if self.snaps else both
        e.tr1 = m.transaction
        e.received = self.received_now
        e.listeners = log.listeners[log.listeners_mark:]
        log.n_events += 1
        log.last_time = e.t
        for t in e.present1:
            if t not in e.tags0:
                log.entered.append((e.t, t))
        now = set(e.present1)
        gone = [t for t in e.present0 if t not in now]
        for t in gone:
            log.left.append((e.t, t))
        if (e.r0.power is None) != (e.r1.power is None):
            log.on_off.append((e.t, e.r1.power is not None))
        if e.tr0 is not e.tr1:
            if e.tr0 is not None and self.cur is not None:
                x = self.cur
                x.end, x.end_tags, x.end_reader = e.t, e.tags1, e.r1
                x.before_end_reader = e.r0
                x.before_tags = e.tags0
                x.received = [f for f in e.received]
                x.present_at_end = list(e.present0)
                x.ended_by = 'off' if e.r1.power is None else 'next'
                self.cur = None
            if e.tr1 is not None:
                self.cur = self.exchange(e)
                log.exchanges.append(self.cur)
        for fn in self.observers:
            fn(self, e)

    def exchange(self, e):
        tr = e.tr1
        x = Exchange()
        x.obj, x.start = tr, e.t
        x.frame = tr.command
        x.bits = tr.command.command.encode()
        x.cmd = R.decode(x.bits)
        x.replies = [(t, f) for t, f in tr.replies]
        x.reader = e.r1
        x.end = x.ended_by = x.received = x.end_tags = x.end_reader = None
        x.before_end_reader = x.present_at_end = x.before_tags = None
        x.tags = e.tags1
        x.index = len(self.log.exchanges)
        x.round = e.r1.round
        r = self.model.reader
        x.rp = (r.tari, r.rtcal, r.trcal, r.delim, r.dr, r.temp)
        x.attrs = {k: getattr(tr, k) for k in (
            'start_time', 'command_end_time', 'reply_start_time',
            'reply_end_time', 'duration', 'finish_time', 'command_duration',
            'reply_duration')}
        x.reply_bits = [reply_bitlen(f.reply) for _, f in x.replies]
        x.reply_durations = [f.get_duration(t.blf) for t, f in x.replies]
        return x

    # -- running ---
    @contextlib.contextmanager
    def installed(self):
        S = sim.Simulator
        schedule, call = S.__dict__['schedule'], S.__dict__['call']
        receive = obj.Reader.__dict__['receive']
        rec = self

        def new_schedule(self, delay, handler, *a, **kw):
            return schedule(self, delay, rec.wrap(handler), *a, **kw)

        def new_call(self, handler, *a, **kw):
            return call(self, rec.wrap(handler), *a, **kw)

        def new_receive(self, frame, *a, **kw):
            if self is rec.model.reader:
                rec.received_now.append(frame)
            return receive(self, frame, *a, **kw)
        # call() may be implemented with schedule(): wrapping twice would
        # observe such events twice
        depth = [0]

        def guarded_schedule(self, delay, handler, *a, **kw):
            if depth[0]:
                return schedule(self, delay, handler, *a, **kw)
            return new_schedule(self, delay, handler, *a, **kw)

        def guarded_call(self, handler, *a, **kw):
            depth[0] += 1
            try:
                return new_call(self, handler, *a, **kw)
            finally:
                depth[0] -= 1
        S.schedule, S.call = guarded_schedule, guarded_call
        obj.Reader.receive = new_receive
        r = self.model.reader
        log = self.log
        r.round_start_listeners.add(
            lambda i, **kw: log.listeners.append(
                (self.now, 'round+', i, None)))
        r.round_finish_listeners.add(
            lambda i, **kw: log.listeners.append(
                (self.now, 'round-', i, None)))
        r.slot_start_listeners.add(
            lambda i, j, **kw: log.listeners.append(
                (self.now, 'slot+', i, j)))
        r.slot_finish_listeners.add(
            lambda i, j, **kw: log.listeners.append(
                (self.now, 'slot-', i, j)))
        try:
            yield
        finally:
            S.schedule, S.call = schedule, call
            obj.Reader.receive = receive

    def run(self, seed, max_num_events=None, max_sim_time=None,
            log_level=None, logger_config=None, debug=False):
        np.random.seed(seed % 2 ** 32)
        random.seed(seed)
        lc = ModelLoggerConfig() if log_level is None else \
            ModelLoggerConfig(level=log_level)
        lc = logger_config or lc
        import pysim.models.rfid.handlers as handlers
        with quiet(), np.errstate(all='ignore'), self.installed():
            self.log.stats, _, _ = sim.run_simulation(sim.build_simulation(
                cfg.MODEL_NAME, init=handlers.start_simulation,
                context=self.model, max_sim_time=max_sim_time,
                max_num_events=max_num_events, logger_config=lc,
                debug=debug))
        return self.log


# --------------------------------------------------------------------------
# Random configurations
# --------------------------------------------------------------------------
class Intervals:
    """Generation intervals that remember what they returned."""

    def __init__(self, values, rest):
        self.values, self.rest, self.given = list(values), rest, []

    def __call__(self, *a):
        k = len(self.given)
        v = self.values[k] if k < len(self.values) else self.rest
        self.given.append(v)
        return v

    def __repr__(self):
        return f'Intervals({self.values}, {self.rest})'


class Case:
    """A configuration in plain values, and the model built from it."""

    def __init__(self, rng, **force):
        f = force
        self.p = p = {}

        def put(k, fn):
            p[k] = f[k] if k in f else fn()
        put('tari', lambda: rng.choice([6.25e-6, 12.5e-6, 18.75e-6, 25e-6]))
        put('rtmul', lambda: rng.choice([2.5, 3.0, 2.75, rng.uniform(2.5, 3)]))
        put('trmul', lambda: rng.choice([1.1, 2.5, 3.0, 2.0,
                                         rng.uniform(1.1, 3)]))
        put('delim', lambda: rng.choice([12.5e-6, 12.5e-6,
                                         rng.uniform(1.2e-5, 1.3e-5)]))
        put('temp', lambda: rng.random() < .4)
        put('m', lambda: rng.choice([1, 2, 4, 8]))
        put('dr', lambda: rng.choice(['8', '64/3']))
        put('trext', lambda: rng.random() < .5)
        put('sel', lambda: rng.choice(['ALL', 'ALL', '~SL', 'ALL', 'SL']))
        put('session', lambda: rng.randrange(4))
        put('target', lambda: rng.choice('AAB'))
        put('strategy', lambda: rng.choice(['const', 'switch', 'switch']))
        put('rounds_per_target', lambda: rng.choice([1, 1, 2, 3, 5]))
        put('q', lambda: rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7]))
        put('adjust', lambda: rng.random() < .4)
        put('delta', lambda: rng.choice([.1, .2, .5, 1.0, .35, .25,
                                         rng.uniform(.05, 1)]))
        put('read_tid', lambda: rng.random() < .6)
        put('words', lambda: rng.choice([1, 2, 4, 8, 16, 64, rng.randint(
            1, 120)]))
        put('epc_bitlen', lambda: rng.choice([96, 96, 32, 64, 128, 256, 496]))
        put('switch_power', lambda: rng.random() < .7)
        put('on', lambda: rng.choice([2.0, .5, .1, .03, rng.uniform(.005, .4),
                                      rng.uniform(.01, .1)]))
        put('off', lambda: rng.choice([.1, .01, .001, rng.uniform(.001, .3),
                                       .02]))
        put('s1', lambda: rng.choice([2.0, .05, 0.0, .1, rng.uniform(0, .2)]))
        put('s2', lambda: rng.choice([2.0, .05, .02, rng.uniform(0, .3)]))
        put('s3', lambda: rng.choice([2.0, .01, .1, rng.uniform(0, .3)]))
        put('update', lambda: rng.choice([.01, .001, .003, .02,
                                          rng.uniform(.001, .05)]))
        put('num_tags', lambda: rng.choice([1, 2, 3, 5, 8, 12]))
        put('speed', lambda: rng.choice([2.0, 5.0, 8.333, 16.0, 30.0]))
        put('dist', lambda: rng.choice([0.0, 1.0, 2.0, 5.0, 10.0,
                                        rng.uniform(0, 6)]))
        put('life', lambda: rng.choice([.05, .2, .5, 1.0,
                                        rng.uniform(.01, .8)]))
        put('travel', lambda: p['life'] * p['speed'])
        put('reader_x', lambda: rng.choice([5.0, 3.0, rng.uniform(.5, 6)]))
        put('reader_z', lambda: rng.choice([5.0, 3.0, rng.uniform(1, 8)]))
        put('tag_x', lambda: rng.choice([p['reader_x'], 2.0,
                                         rng.uniform(.5, 6)]))
        put('tag_z', lambda: rng.choice([0.0, 0.0, rng.uniform(0, .8)]))
        put('reader_dir', lambda: rng.choice([(0, 0, -1), (0, 0, -1),
                                              (0.3, 0, -1), (0, 0, -2)]))
        put('tag_dir', lambda: rng.choice([(0, 0, 1), (0, 0, 1), (.2, 0, 1),
                                           (0, 0, 3)]))
        put('power', lambda: rng.choice([31.5, 29.0, 20.0, 35.0,
                                         rng.uniform(10, 36)]))
        put('reader_gain', lambda: rng.choice([6.0, 8.0, rng.uniform(0, 10)]))
        put('cable', lambda: rng.choice([-2.0, 0.0, rng.uniform(-4, 0)]))
        put('tag_gain', lambda: rng.choice([3.0, 0.0, rng.uniform(-1, 5)]))
        put('modloss', lambda: rng.choice([-12.0, rng.uniform(-25, -3)]))
        put('sensitivity', lambda: rng.choice([-18.0, -40.0, -60.0, -60.0,
                                               rng.uniform(-30, -5)]))
        put('noise', lambda: rng.choice([-80.0, -100.0, -110.0,
                                         rng.uniform(-110, -50)]))
        put('distr', lambda: rng.choice(['rayleigh', 'rayleigh', 'awgn']))
        put('frequency', lambda: rng.choice([860e6, 915e6,
                                             rng.uniform(8e8, 1e9)]))
        put('permittivity', lambda: rng.choice([15.0, rng.uniform(2, 40)]))
        put('conductivity', lambda: rng.choice([.03, 0.0, .5]))
        put('polloss', lambda: rng.choice([-3.0, 0.0, rng.uniform(-6, 0)]))
        put('reflection', lambda: rng.choice(['reflection', 'reflection',
                                              'const']))
        put('doppler', lambda: rng.random() < .7)
        put('power_stats', lambda: rng.random() < .2)
        put('gap', lambda: rng.choice([0.0, .01, .1, .3, 1.0]))
        put('gaps', lambda: [rng.choice([p['gap'], p['gap'], rng.expovariate(
            5), 0.0]) for _ in range(p['num_tags'] + 2)])
        put('antennas', lambda: 1)
        put('antenna_switch', lambda: rng.choice([10.0, .05, .02, .1]))
        put('first_antenna', lambda: rng.random() < .5)
        put('q_fp', lambda: None)
        put('direction', lambda: None)
        put('ints', lambda: False)

    def settings(self):
        p = self.p
        self.intervals = Intervals(p['gaps'], p['gap'] + .001)
        return self.make(
            delim=p['delim'], tari=p['tari'], rtcal_tari_mul=p['rtmul'],
            trcal_rtcal_mul=p['trmul'], temp=TEMPS[p['temp']],
            speed=p['speed'], initial_distance_to_reader=p['dist'],
            travel_distance=p['travel'], reader_antenna_x=p['reader_x'],
            reader_antenna_z=p['reader_z'], tag_antenna_x=p['tag_x'],
            tag_antenna_z=p['tag_z'],
            reader_antenna_direction=np.asarray(p['reader_dir']),
            tag_antenna_direction=np.asarray(p['tag_dir']),
            update_interval=p['update'], reader_power=p['power'],
            reader_antenna_gain=p['reader_gain'],
            reader_cable_loss=p['cable'], tag_antenna_gain=p['tag_gain'],
            tag_modulation_loss=p['modloss'],
            tag_sensitivity=p['sensitivity'], reader_noise=p['noise'],
            ber_distribution=p['distr'], frequency=p['frequency'],
            permittivity=p['permittivity'], conductivity=p['conductivity'],
            polarization_loss=p['polloss'],
            ground_reflection_type=p['reflection'],
            use_doppler=p['doppler'], reader_switch_power=p['switch_power'],
            reader_power_on_duration=p['on'],
            reader_power_off_duration=p['off'],
            reader_antenna_switching_interval=p['antenna_switch'],
            reader_always_start_with_first_antenna=p['first_antenna'],
            read_tid_bank=p['read_tid'], tid_word_size=p['words'],
            encoding=MS[p['m']], dr=DRS[p['dr']], sel=SELS[p['sel']],
            session=SESS[p['session']], trext=p['trext'], q=p['q'],
            use_query_adjust=p['adjust'], adjust_delta=p['delta'],
            q_fp=p['q_fp'], target=TARGETS[p['target']],
            target_strategy=p['strategy'],
            rounds_per_target=p['rounds_per_target'],
            epc_bitlen=p['epc_bitlen'], s1_persistence=p['s1'],
            s2_persistence=p['s2'], s3_persistence=p['s3'],
            generation_interval=(self.intervals,), num_tags=p['num_tags'],
            collect_power_statistics=p['power_stats'])

    def make(self, **kw):
        if self.p['ints']:      # whole numbers are given as integers
            for k, v in kw.items():
                if isinstance(v, float) and v == int(v):
                    kw[k] = int(v)
        return cfg.Settings(**kw)

    def build(self):
        with quiet():
            model = cfg.create_model(self.settings())
        if self.p['direction'] is not None:
            model.generators[0].direction = np.array(self.p['direction'])
        for k in range(1, self.p['antennas']):
            a = obj.Antenna()
            a.pos = np.asarray([self.p['reader_x'], 1.0 * k,
                                self.p['reader_z']])
            a.direction_theta = np.asarray(self.p['reader_dir'])
            a.gain, a.cable_loss = self.p['reader_gain'], self.p['cable']
            model.reader.attach_antenna(a)
        return model

    # -- reference values --
    @property
    def rtcal(self):
        return self.p['tari'] * self.p['rtmul']

    @property
    def trcal(self):
        return self.rtcal * self.p['trmul']

    @property
    def blf(self):
        return R.blf(self.p['dr'], self.trcal)

    @property
    def lifetime(self):
        return self.p['travel'] / self.p['speed']

    def budget(self):
        p = self.p
        return L.Budget(frequency=p['frequency'],
                        permittivity=p['permittivity'],
                        conductivity=p['conductivity'],
                        polarization_loss=p['polloss'],
                        use_doppler=p['doppler'],
                        reflection_type=p['reflection'],
                        ber_distribution=p['distr'], bandwidth=1.2e6,
                        noise=p['noise'])

    def antenna(self, k):
        p = self.p
        return ((p['reader_x'], 1.0 * k, p['reader_z']),
                L.unit(p['reader_dir']))

    @property
    def gains(self):
        p = self.p
        return p['reader_gain'] + p['cable'] + p['tag_gain']

    def tag_power(self, b, pos, on_interval, antenna=0):
        """Ranges of the admissible power at the tag."""
        p = self.p
        rs = b.path(self.antenna(antenna), (pos, L.unit(p['tag_dir'])),
                    on_interval, (0.0, p['speed'], 0.0), 0.5)
        return [(lo + p['power'] + self.gains, hi + p['power'] + self.gains)
                for lo, hi in rs]

    def back_power(self, b, tag_power, pos, on_interval, antenna=0):
        p = self.p
        rs = b.path((pos, L.unit(p['tag_dir'])), self.antenna(antenna),
                    on_interval, (0.0, -p['speed'], 0.0), 1.0)
        k = tag_power + p['modloss'] + self.gains
        return [(lo + k, hi + k) for lo, hi in rs]

    def snr_ber(self, b, back):
        """Ranges of SNR and BER for a range of powers."""
        pre = R.preamble_bits(self.p['m'], self.p['trext']) * \
            self.p['m'] / self.blf
        out = []
        for x in back:
            s = 0.0 if x == -L.INF else b.snr(x, self.p['m'], self.blf, pre)
            out.append((s, b.ber(s)))
        return out


def run_case(case, seed, observers=(), snaps=True, **limits):
    model = case.build()
    for o in observers:
        if hasattr(o, 'start'):
            o.start(model)
    rec = Recorder(model, observers, snaps)
    rec.case = case
    rec.run(seed, **limits)
    return rec
