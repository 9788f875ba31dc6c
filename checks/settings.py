"""S08, C04: settings and overriding arguments of the RFID model."""
import contextlib
import dataclasses
import io
import logging
import random
import re

import numpy as np

from vlib import rfidrec as X
from vlib.core import check, isclose, quiet

cfg, std, obj = X.cfg, X.std, X.obj


def plain(v):
    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
        return tuple(x if callable(x) else float(x) for x in v)
    if isinstance(v, (np.floating, np.integer)):
        return v.item()
    if hasattr(v, 'name') and hasattr(type(v), '__members__'):
        return v.name
    return v


def snapshot(model):
    """Everything a setting can end up in, as plain values."""
    r, m = model.reader, model.medium
    g = model.generators[0]
    a = r.antenna
    s = {}
    for name in ('tari', 'rtcal', 'trcal', 'delim', 'temp', 'q',
                 'tag_encoding', 'trext', 'dr', 'sel', 'session', 'target',
                 'target_strategy', 'rounds_per_target', 'max_power',
                 'power_control_mode', 'power_on_duration',
                 'power_off_duration', 'noise', 'read_tid_bank',
                 'read_tid_words_num', 'always_start_with_first_antenna',
                 'antenna_switch_interval', 'use_query_adjust',
                 'adjust_delta', 'q_fp', 'num_antennas', 'antenna_index',
                 'power'):
        s['reader.' + name] = plain(getattr(r, name))
    for name in ('pos', 'direction_theta', 'gain', 'cable_loss'):
        s['antenna.' + name] = plain(getattr(a, name))
    for name in ('ber_distribution', 'ground_reflection_type', 'frequency',
                 'permittivity', 'conductivity', 'polarization_loss',
                 'use_doppler', 'bandwidth'):
        s['medium.' + name] = plain(getattr(m, name))
    for name in ('pos0', 'velocity', 'direction', 'tag_antenna_direction',
                 'travel_distance', 'epc_bitlen', 'tid_bitlen', 'epc_prefix',
                 'tid_prefix', 's1_persistence', 's2_persistence',
                 's3_persistence', 'max_tags_generated',
                 'num_tags_generated', 'antenna_gain', 'modulation_loss',
                 'sensitivity', 'lifetime', 'interval'):
        s['generator.' + name] = plain(getattr(g, name))
    s['model.max_tags_num'] = model.max_tags_num
    s['model.update_interval'] = model.update_interval
    s['model.power_statistics'] = model.statistics.use_power_statistics
    s['model.generators'] = len(model.generators)
    s['model.tags'] = len(model.tags)
    mode = r.power_control_mode
    s['reader.on'] = mode.min_powered_on_interval(r)
    s['reader.off'] = mode.powered_off_interval(r)
    return s


def tag_snapshot(tag):
    s = {}
    for name in ('pos', 'velocity', 'direction', 'sensitivity',
                 'modulation_loss', 's1_persistence', 's2_persistence',
                 's3_persistence', 'power'):
        s['tag.' + name] = plain(getattr(tag, name))
    s['tag.gain'] = tag.antenna.gain
    s['tag.antenna direction'] = plain(tag.antenna.direction_theta)
    s['tag.cable'] = tag.antenna.cable_loss
    s['tag.epc'] = 4 * len(tag.epc)
    s['tag.tid'] = 4 * len(tag.tid)
    return s


def expected(v, kw):
    """v: effective settings as plain values, kw: overriding arguments."""
    def g(arg, name):
        return kw.get(arg, v[name])
    tari = g('tari', 'tari')
    rtcal = tari * v['rtcal_tari_mul']
    words = g('tid_word_size', 'tid_word_size')
    speed = g('speed', 'speed')
    n = g('num_tags', 'num_tags')
    enc = kw.get('encoding', v['encoding'])
    e = {
        'reader.tari': tari, 'reader.rtcal': rtcal,
        'reader.trcal': rtcal * v['trcal_rtcal_mul'],
        'reader.delim': v['delim'], 'reader.temp': v['temp'].name,
        'reader.q': v['q'], 'reader.tag_encoding': enc.name,
        'reader.trext': v['trext'], 'reader.dr': v['dr'].name,
        'reader.sel': v['sel'].name, 'reader.session': v['session'].name,
        'reader.target': v['target'].name,
        'reader.target_strategy': v['target_strategy'],
        'reader.rounds_per_target': v['rounds_per_target'],
        'reader.max_power': g('power', 'reader_power'),
        'reader.power_control_mode': 'PERIODIC' if v['reader_switch_power']
        else 'ALWAYS_ON',
        'reader.on': v['reader_power_on_duration']
        if v['reader_switch_power'] else None,
        'reader.off': v['reader_power_off_duration']
        if v['reader_switch_power'] else None,
        'reader.power_on_duration': v['reader_power_on_duration'],
        'reader.power_off_duration': v['reader_power_off_duration'],
        'reader.noise': v['reader_noise'],
        'reader.read_tid_bank': v['read_tid_bank'] if words > 0 else False,
        'reader.read_tid_words_num': words,
        'reader.always_start_with_first_antenna':
            v['reader_always_start_with_first_antenna'],
        'reader.antenna_switch_interval':
            v['reader_antenna_switching_interval'],
        'reader.use_query_adjust': g('useadjust', 'use_query_adjust'),
        'reader.adjust_delta': g('delta', 'adjust_delta'),
        'reader.q_fp': v['q'] if v['q_fp'] is None else v['q_fp'],
        'reader.num_antennas': 1, 'reader.antenna_index': 0,
        'reader.power': None,
        'antenna.pos': (g('reader_offset', 'reader_antenna_x'), 0.0,
                        g('altitude', 'reader_antenna_z')),
        'antenna.direction_theta': plain(v['reader_antenna_direction']),
        'antenna.gain': v['reader_antenna_gain'],
        'antenna.cable_loss': v['reader_cable_loss'],
        'medium.bandwidth': 1.2e6,
        'generator.pos0': (g('tag_offset', 'tag_antenna_x'),
                           -v['initial_distance_to_reader'],
                           v['tag_antenna_z']),
        'generator.velocity': speed, 'generator.direction': (0., 1., 0.),
        'generator.tag_antenna_direction': plain(v['tag_antenna_direction']),
        'generator.travel_distance': v['travel_distance'],
        'generator.lifetime': v['travel_distance'] / speed,
        'generator.epc_bitlen': v['epc_bitlen'],
        'generator.tid_bitlen': 16 * words,
        'generator.epc_prefix': 'AAAA', 'generator.tid_prefix': 'AAAA',
        'generator.max_tags_generated': n,
        'generator.num_tags_generated': 0,
        'generator.antenna_gain': v['tag_antenna_gain'],
        'generator.modulation_loss': v['tag_modulation_loss'],
        'generator.sensitivity': v['tag_sensitivity'],
        'generator.interval': v['generation_interval'][0](
            *v['generation_interval'][1:]),
        'model.max_tags_num': n,
        'model.update_interval': v['update_interval'],
        'model.power_statistics': v['collect_power_statistics'],
        'model.generators': 1, 'model.tags': 0,
    }
    for k in ('ber_distribution', 'ground_reflection_type', 'frequency',
              'permittivity', 'conductivity', 'polarization_loss',
              'use_doppler'):
        e['medium.' + k] = v[k]
    for k in ('s1_persistence', 's2_persistence', 's3_persistence'):
        e['generator.' + k] = v[k]
    return e


def expected_tag(e):
    return {
        'tag.pos': e['generator.pos0'], 'tag.velocity': e[
            'generator.velocity'],
        'tag.direction': (0., 1., 0.),
        'tag.sensitivity': e['generator.sensitivity'],
        'tag.modulation_loss': e['generator.modulation_loss'],
        'tag.s1_persistence': e['generator.s1_persistence'],
        'tag.s2_persistence': e['generator.s2_persistence'],
        'tag.s3_persistence': e['generator.s3_persistence'],
        'tag.power': None, 'tag.gain': e['generator.antenna_gain'],
        'tag.antenna direction': e['generator.tag_antenna_direction'],
        'tag.cable': 0.0, 'tag.epc': e['generator.epc_bitlen'],
        'tag.tid': max(16, e['generator.tid_bitlen']),
    }


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b or (a == b and type(a) is type(b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or isclose(a, b, 1e-12, 1e-18)
    return a == b


def compare(c, got, want, what, **info):
    for k, w in want.items():
        c.expect(same(got[k], w), f'{what}: {k}', got=got[k], want=w, **info)


class Choices:
    """Random values of every setting (different from the default)."""

    def __init__(self, rng):
        self.rng = rng

    def value(self, name):
        r = self.rng
        vec = lambda: np.asarray([r.uniform(-1, 1), r.uniform(-1, 1),
                                  r.choice([-1, 1]) * r.uniform(.1, 2)])
        u = r.uniform
        t = {
            'delim': lambda: u(11e-6, 14e-6),
            'tari': lambda: r.choice([12.5e-6, 18.75e-6, 25e-6, u(7e-6,
                                                                  25e-6)]),
            'rtcal_tari_mul': lambda: u(2.5, 3), 'trcal_rtcal_mul':
            lambda: u(1.1, 3),
            'temp': lambda: r.choice(list(std.TempRange)),
            'speed': lambda: u(.1, 60), 'initial_distance_to_reader':
            lambda: u(0, 30), 'travel_distance': lambda: u(.1, 80),
            'reader_antenna_direction': vec, 'tag_antenna_direction': vec,
            'update_interval': lambda: u(1e-3, 1),
            'ber_distribution': lambda: r.choice(['rayleigh', 'awgn']),
            'frequency': lambda: u(8e8, 1e9),
            'ground_reflection_type': lambda: r.choice(['reflection',
                                                        'const']),
            'reader_power_on_duration': lambda: u(.01, 9),
            'reader_power_off_duration': lambda: u(.01, 9),
            'tid_word_size': lambda: r.choice([1, 2, 6, 64, 255, 0,
                                               r.randrange(1, 256)]),
            'encoding': lambda: r.choice(list(std.TagEncoding)),
            'dr': lambda: r.choice(list(std.DivideRatio)),
            'sel': lambda: r.choice(list(std.SelFlag)),
            'session': lambda: r.choice(list(std.Session)),
            'q': lambda: r.randrange(16),
            'q_fp': lambda: r.choice([None, 0, 0.0, u(0, 15), 7]),
            'target': lambda: r.choice(list(std.InventoryFlag)),
            'target_strategy': lambda: r.choice(['const', 'switch']),
            'rounds_per_target': lambda: r.randrange(1, 30),
            'epc_bitlen': lambda: r.choice([16, 32, 64, 128, 256, 496]),
            'generation_interval': lambda: r.choice([
                (lambda: 0.25,), ((lambda a: a * 2), u(0, 5)),
                ((lambda a, b: a + b), u(0, 5), 1.0)]),
            'num_tags': lambda: r.choice([0, 1, r.randrange(1, 9999)]),
        }
        if name in t:
            return t[name]()
        d = DEF[name]
        if isinstance(d, bool):
            return r.random() < .5
        if name in KW_OF:
            return r.choice([u(-30, 30), 0, r.randrange(1, 40)])
        return r.choice([u(-30, 30), 0.0, u(0, 3)])


# overriding argument -> the setting it overrides
KW = {'speed': 'speed', 'encoding': 'encoding', 'tari': 'tari',
      'tid_word_size': 'tid_word_size', 'reader_offset': 'reader_antenna_x',
      'tag_offset': 'tag_antenna_x', 'altitude': 'reader_antenna_z',
      'power': 'reader_power', 'num_tags': 'num_tags',
      'useadjust': 'use_query_adjust', 'delta': 'adjust_delta'}
KW_OF = {v: k for k, v in KW.items()}
DEF = {f.name: getattr(cfg.Settings(), f.name)
       for f in dataclasses.fields(cfg.Settings)}


def shown(d):
    return {k: repr(v) for k, v in d.items()}


@check('S08', 'random subsets of all settings and overriding arguments '
              '(falsy values included), every single setting and argument '
              'changed alone, models built after other models; every '
              'attribute of the model and of created tags against the '
              'effective settings; distinct = (settings given, arguments '
              'given)')
def s08(c):
    rng = c.rng
    ch = Choices(rng)
    built = []

    def build(settings, **kw):
        with quiet():
            return cfg.create_model(settings, **kw) if settings is not None \
                else cfg.create_model(**kw)

    def verify(v, given, kw, what):
        c.begin(dict(what=what, settings=shown(given), arguments=shown(kw)))
        s = cfg.Settings(**given)
        for k, x in given.items():
            c.expect(getattr(s, k) is x or same(plain(getattr(s, k)),
                                                plain(x)),
                     'a setting is kept', name=k)
        c.close(s.rtcal, s.tari * s.rtcal_tari_mul, 'RTcal of the settings')
        c.close(s.trcal, s.rtcal * s.trcal_rtcal_mul, 'TRcal of the settings')
        c.eq(s.tid_bitlen, 16 * s.tid_word_size, 'memory of the settings')
        before = {f: plain(getattr(s, f)) for f in DEF}
        model = build(s, **kw)
        e = expected(v, kw)
        compare(c, snapshot(model), e, what)
        if built:
            compare(c, snapshot(built[0]), built[1],
                    'a model built before another one')
        built[:] = [model, snapshot(model)]
        for f, x in before.items():
            c.expect(same(plain(getattr(s, f)), x) or x is plain(
                getattr(s, f)), 'building a model changes the settings',
                name=f)
        if e['generator.tid_bitlen'] >= 16:
            tags = [model.generators[0].create_tag(model) for _ in range(3)]
            want = expected_tag(e)
            for t in tags:
                compare(c, tag_snapshot(t), want, what + ' (tag)')
            # what happens to one tag does not reach the others
            tags[0].pos += np.asarray([1.0, 2.0, 3.0])
            tags[0].antenna.gain = -77.0
            for vec in (tags[0].direction, tags[0].antenna.direction_theta):
                try:
                    vec[:] = 7
                except (TypeError, ValueError):     # cannot be changed
                    pass
            if rng.random() < .5:
                tags[0].antenna.direction_theta = np.asarray([7., 7., 7.])
            t = model.generators[0].create_tag(model)
            for t in tags[1:] + [t]:
                compare(c, tag_snapshot(t), want, what + ' (another tag)')
            c.count('tags', 4)
        c.count('models')
        return model

    first = snapshot(build(None))
    compare(c, first, expected(DEF, {}), 'default model')
    # every setting and every argument alone
    for rep in range(c.n(3)):
        for name in DEF:
            x = ch.value(name)
            m = verify(dict(DEF, **{name: x}), {name: x}, {},
                       f'only {name} set')
            c.seen(('one', name))
            if name in KW_OF:
                # the argument wins, also where it equals the default
                for y in (ch.value(name), DEF[name]):
                    verify(dict(DEF, **{name: x}), {name: x},
                           {KW_OF[name]: y}, f'{name} set and overridden')
                kw = {KW_OF[name]: ch.value(name)}
                verify(DEF, {}, kw, f'only {KW_OF[name]} given')
                c.seen(('arg', name))
    # random subsets
    for i in range(c.n(250)):
        share = rng.choice([0, .1, .5, .9, 1])
        given = {k: ch.value(k) for k in DEF if rng.random() < share}
        share = rng.choice([0, .2, .6, 1])
        kw = {k: ch.value(n) for k, n in KW.items() if rng.random() < share}
        verify(dict(DEF, **given), given, kw, 'random settings')
        c.seen((tuple(sorted(given)), tuple(sorted(kw))))
        if i % 10 == 0:
            c.begin(dict(what='defaults after other models'))
            compare(c, snapshot(build(None)), first,
                    'default model after other models')
            model = obj.Model()
            c.eq((len(model.tags), len(model.generators)), (0, 0),
                 'a new model is empty')
    # whole numbers where fractions are usual
    for i in range(c.n(24)):
        given = {k: rng.randrange(1, 30) for k in (
            'initial_distance_to_reader', 'tag_antenna_x', 'tag_antenna_z',
            'reader_antenna_x', 'reader_antenna_z', 'speed',
            'travel_distance', 'reader_power', 'tag_sensitivity',
            'tag_antenna_gain', 'reader_antenna_gain') if rng.random() < .8}
        if i % 2:
            given.update({k: ch.value(k) for k in (
                'tag_antenna_direction', 'reader_antenna_direction')})
        if i % 3 == 2:
            given['tag_antenna_direction'] = np.asarray([1, 2, -2])
        verify(dict(DEF, **given), given, {}, 'whole numbers')
        c.count('whole numbers')
    # periodic and permanent power supply
    s = cfg.Settings(reader_switch_power=False)
    c.eq(s.get_power_control_mode(True).name, 'PERIODIC', 'power mode')
    c.eq(s.get_power_control_mode(False).name, 'ALWAYS_ON', 'power mode')
    c.eq(s.get_power_control_mode().name, 'ALWAYS_ON', 'power mode')
    c.need('models', 300)
    c.need('tags', 300)


# --------------------------------------------------------------------------
# C04: what verbose mode tells
# --------------------------------------------------------------------------
ROW = re.compile(r'^(model|reader antenna|reader|medium|tag|generator|kernel)'
                 r'\s{2,}(\S+)(?:\s{2,}(.*?))?\s*$')
TIMES = ('tari', 'rtcal', 'trcal', 'delim')


def table(text):
    rows = {}
    for line in text.splitlines():
        m = ROW.match(line)
        if m:
            rows.setdefault((m.group(1), m.group(2)), []).append(
                (m.group(3) or '').strip())
    return rows


def wanted_rows(e, given):
    """Rows of the table: (part, name) -> value in force."""
    rows = {}
    for k in ('max_tags_num', 'update_interval'):
        rows['model', k] = e['model.' + k]
    rows['model', 'statistics.use_power_statistics'] = e[
        'model.power_statistics']
    for k in ('tari', 'tag_encoding', 'q', 'rtcal', 'trcal', 'delim', 'temp',
              'session', 'target', 'sel', 'dr', 'trext', 'target_strategy',
              'rounds_per_target', 'power_control_mode', 'max_power',
              'power_on_duration', 'power_off_duration', 'noise',
              'read_tid_words_num', 'read_tid_bank',
              'always_start_with_first_antenna', 'antenna_switch_interval'):
        rows['reader', k] = e['reader.' + k]
    for k in ('pos', 'direction_theta', 'gain', 'cable_loss'):
        rows['reader antenna', k] = e['antenna.' + k]
    for k in ('ber_distribution', 'ground_reflection_type', 'frequency',
              'permittivity', 'conductivity', 'polarization_loss',
              'use_doppler'):
        rows['medium', k] = e['medium.' + k]
    for k in ('pos0', 'velocity', 'direction', 'travel_distance',
              'epc_bitlen', 'tid_bitlen', 'antenna_gain', 'modulation_loss',
              'sensitivity'):
        rows['tag', k] = e['generator.' + k]
    rows['tag', 'antenna_direction'] = e['generator.tag_antenna_direction']
    rows['generator', 'num_tags'] = e['generator.max_tags_generated']
    return rows


def tells(text, want, name, enums):
    """The cell of a table shows a value."""
    if want is None:
        return text in ('', '-', 'None')
    if isinstance(want, bool):
        return text == str(want)
    if name in TIMES:
        m = re.fullmatch(r'([-+\d.e]+)\s*(us|мкс)', text)
        return bool(m) and abs(float(m.group(1)) - want * 1e6) < 0.0051
    if isinstance(want, str):
        if text == want:
            return True
        return any(text in (str(x), repr(x), x.name, f'{type(x).__name__}.'
                            f'{x.name}') for x in enums if x.name == want)
    if isinstance(want, tuple):
        try:
            got = [float(x) for x in re.findall(
                r'[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?', text)]
        except ValueError:
            return False
        return len(got) == len(want) and all(
            isclose(a, b, 1e-4, 1e-6) for a, b in zip(got, want))
    try:
        return isclose(float(text), want, 1e-4, 1e-9)
    except ValueError:
        return False


def rng_state():
    s = np.random.get_state()
    return s[1].tobytes(), s[2:], random.getstate()


@check('C04', 'the settings table of models built in verbose mode from '
              'random settings and overriding arguments, and of command '
              'line runs with and without -v, against the settings in '
              'force; distinct = (row, shown value)')
def c04(c):
    from click.testing import CliRunner
    import pysim.main as main
    import pysim.sim.simulator as sim
    rng = c.rng
    ch = Choices(rng)
    enums = [x for e in (std.TempRange, std.TagEncoding, std.Session,
                         std.InventoryFlag, std.SelFlag, std.DivideRatio)
             for x in e] + list(obj.Reader.PowerControlMode
                                if hasattr(obj.Reader, 'PowerControlMode')
                                else type(obj.Reader().power_control_mode))

    def show(text, want, what):
        rows = table(text)
        for k, v in rows.items():
            c.eq(len(v), 1, f'{what}: a setting is shown once', row=k)
        for k, x in want.items():
            c.expect(k in rows, f'{what}: a setting is not shown', row=k,
                     output=text[-4000:])
            c.expect(tells(rows[k][0], x, k[1], enums),
                     f'{what}: shown setting', row=k, shown=rows[k][0],
                     want=x)
            c.seen((k, rows[k][0]))
            c.count('rows')

    def printed(fn, *a, **kw):
        out = io.StringIO()
        with contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(io.StringIO()):
            r = fn(*a, **kw)
        return r, out.getvalue()

    # models
    for i in range(c.n(120)):
        share = rng.choice([0, .1, .5, 1])
        given = {k: ch.value(k) for k in DEF if rng.random() < share}
        share = rng.choice([0, .3, 1])
        kw = {k: ch.value(n) for k, n in KW.items() if rng.random() < share}
        c.begin(dict(settings=shown(given), arguments=shown(kw)))
        e = expected(dict(DEF, **given), kw)
        want = wanted_rows(e, given)
        quiet_state = None
        calls = []

        def interval():
            calls.append(1)
            return 1.5
        if i % 4 == 1:
            given['generation_interval'] = (interval,)
            e = expected(dict(DEF, **given), kw)
            want = wanted_rows(e, given)
        if i % 2:       # building draws the same with and without the table
            seeds = c.np_seed()
            np.random.seed(seeds)
            random.seed(seeds)
            printed(cfg.create_model, cfg.Settings(**given), **kw)
            quiet_state = rng_state()
            np.random.seed(seeds)
            random.seed(seeds)
        calls.clear()
        model, text = printed(cfg.create_model, cfg.Settings(**given),
                              verbose=True, **kw)
        c.eq(len(calls), 0, 'intervals drawn for the table')
        if quiet_state is not None:
            c.expect(rng_state() == quiet_state,
                     'the table uses up random numbers')
            c.count('random states')
        show(text, want, 'verbose')
        c.sample({'arguments': shown(kw), 'printed': text[-900:]})
        compare(c, snapshot(model), e, 'verbose model')
        c.count('models')
        if i % 3 == 0:
            model, text = printed(cfg.create_model, cfg.Settings(**given),
                                  **dict(kw, **({'verbose': False} if i % 2
                                                else {})))
            c.eq(table(text), {}, 'settings are shown without being asked')
            c.count('silent')
        if i % 4 == 0:
            limits = dict(max_sim_time=rng.choice([None, rng.uniform(1, 99)]),
                          max_real_time=rng.choice([None, rng.uniform(1, 99)])
                          )
            level = rng.choice([logging.DEBUG, logging.INFO, logging.ERROR])
            kernel = sim.Kernel('rfid')
            kernel.set_context(model)
            kernel.logger.setup(sim.ModelLoggerConfig(level=level,
                                                      file_level=level))
            kernel.set_max_sim_time(limits['max_sim_time'])
            kernel.set_max_real_time(limits['max_real_time'])
            before = rng_state()
            _, text = printed(cfg.print_model_settings, model, kernel)
            c.expect(rng_state() == before,
                     'the table uses up random numbers')
            want = dict(want)
            want['kernel', 'max_simulation_time'] = limits['max_sim_time']
            want['kernel', 'max_real_time'] = limits['max_real_time']
            want['kernel', 'logger_level'] = level
            show(text, want, 'settings with those of the kernel')
            c.count('kernels')
    # command line
    for i in range(c.n(16)):
        o = dict(speed=rng.choice([300, 700, 1500]), encoding=rng.choice(
            '1248'), tari=rng.choice(['6.25', '12.5', '18.75', '25']),
            tid_word_size=rng.choice([1, 4, 60]), altitude=rng.choice(
                [2.5, 4.0, 5.0]), reader_offset=rng.choice([1.5, 3.0]),
            tag_offset=rng.choice([.5, 2.0]), power=rng.choice([3, 20, 31]),
            num_tags=rng.choice([1, 2]), delta=rng.choice([.2, .5, .7]))
        args = ['run', 'rfid', '-s', o['speed'], '-m', o['encoding'], '-t',
                o['tari'], '-ws', o['tid_word_size'], '-a', o['altitude'],
                '-ro', o['reader_offset'], '-to', o['tag_offset'], '-p',
                o['power'], '-n', o['num_tags'], '-d', o['delta']]
        flag = (['-v'], ['--verbose'], [], ['-v'])[i % 4]
        if i % 2:
            args.append('-ua')
        args = [str(x) for x in args + flag]
        c.begin(dict(arguments=args))
        np.random.seed(c.np_seed())
        with np.errstate(all='ignore'):
            r = CliRunner().invoke(main.cli, args)
        c.eq(r.exit_code, 0, 'exit status', exception=repr(r.exception),
             output=r.output[-600:])
        kw = dict(o, speed=o['speed'] / 3.6, tari=float(o['tari']) * 1e-6,
                  encoding=dict(zip('1248', (
                      std.TagEncoding.FM0, std.TagEncoding.M2,
                      std.TagEncoding.M4, std.TagEncoding.M8)))[
                          o['encoding']], useadjust=bool(i % 2))
        if flag:
            show(r.output, wanted_rows(expected(DEF, kw), {}),
                 'verbose run')
            c.count('verbose runs')
        else:
            c.eq(table(r.output), {},
                 'settings are shown without being asked')
            c.count('silent')
    c.need('models', 100)
    c.need('kernels', 20)
    c.need('verbose runs', 8)
    c.need('silent', 20)
