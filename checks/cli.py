"""C01, C02: parameter sweeps and the command line."""
import ast
import contextlib
import importlib
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from vlib.core import REPO, Inconclusive, check, isclose, quiet
import pysim.sim.simulator as sim

MODELS = ('pingpong', 'rfid', 'tag_time')


def cli_of(name):
    return importlib.import_module(f'pysim.models.{name}.cli')


class Stop(BaseException):
    """Ends a run whose parameters have been seen."""


def plain(x):
    if isinstance(x, np.ndarray):
        return [float(v) for v in x]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(type(x), '__members__'):
        return x.name
    return x


def snapshot(ctx):
    """Parameters of a running model (None if it is not built yet)."""
    if ctx is None:
        return None
    if hasattr(ctx, 'reader') and hasattr(ctx, 'generators'):
        r, g = ctx.reader, ctx.generators[0]
        return dict(
            model='rfid', speed=g.velocity, encoding=plain(r.tag_encoding),
            tari=r.tari, tid_word_size=r.read_tid_words_num,
            altitude=float(r.antenna.pos[2]),
            reader_offset=float(r.antenna.pos[0]),
            tag_offset=float(g.pos0[0]), power=r.max_power,
            num_tags=g.max_tags_generated, stop_at=ctx.max_tags_num,
            useadjust=bool(r.use_query_adjust), delta=r.adjust_delta)
    if hasattr(ctx, 'client') and hasattr(ctx, 'server'):
        return dict(
            model='pingpong', interval=ctx.client.interval,
            max_pings=ctx.client.max_pings, channel_delay=ctx.channel.delay,
            service_delay=ctx.server.delay, loss_prob=ctx.server.loss_prob)
    if hasattr(ctx, 'arbitrate') and hasattr(ctx, 'secured'):
        secured = ctx.secured if isinstance(ctx.secured, list) else \
            [ctx.secured]
        st = [ctx.arbitrate, ctx.reply, ctx.acknowledged] + list(secured)
        return dict(
            model='tag_time', scenario=ctx.scenario,
            probability=[s.probability for s in st],
            processing_time=[s.interval for s in st],
            max_transmisions=[s.max_transmisions for s in st],
            chunks=len(secured) if isinstance(ctx.secured, list) else None)
    return None


class Spy:
    """Writes the parameters of every model that runs, in this process or in
    its children, and makes every run start with the same random numbers."""

    def __init__(self, abort=False):
        self.dir = tempfile.mkdtemp(prefix='verif-spy-')
        self.abort = abort
        self.kernels = {}

    def touch(self, kernel):
        k = self.kernels.get(id(kernel))
        if k is None:
            k = self.kernels[id(kernel)] = [kernel, False]
            random.seed(12345)
            np.random.seed(12345)
        if not k[1]:
            s = snapshot(getattr(kernel, 'context', None))
            if s is not None:
                k[1] = True
                with open(os.path.join(self.dir, f'{os.getpid()}.jsonl'),
                          'a') as f:
                    f.write(json.dumps(s) + '\n')
                if self.abort:
                    raise Stop()

    @contextlib.contextmanager
    def installed(self):
        S = sim.Simulator
        real = {n: S.__dict__[n] for n in ('schedule', 'call')}
        spy = self

        def wrap(fn):
            def wrapped(self, *a, **kw):
                spy.touch(self)
                return fn(self, *a, **kw)
            return wrapped
        for n, fn in real.items():
            setattr(S, n, wrap(fn))
        cwd = os.getcwd()
        os.chdir(self.dir)
        try:
            yield self
        finally:
            os.chdir(cwd)
            for n, fn in real.items():
                setattr(S, n, fn)

    def runs(self):
        out = []
        for fn in sorted(os.listdir(self.dir)):
            if fn.endswith('.jsonl'):
                with open(os.path.join(self.dir, fn)) as f:
                    out += [json.loads(x) for x in f]
                os.unlink(os.path.join(self.dir, fn))
        self.kernels.clear()
        return out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def invoke(args, spy):
    """Runs the root command in this process."""
    from click.testing import CliRunner
    import pysim.main as main
    with spy.installed(), np.errstate(all='ignore'):
        r = CliRunner().invoke(main.cli, args)
    reap()
    return r


def reap():
    """Pools that the code leaves behind."""
    for p in multiprocessing.active_children():
        p.terminate()
    for p in multiprocessing.active_children():
        p.join(5)


def keyed(runs):
    return sorted(json.dumps(r, sort_keys=True) for r in runs)


def expect_runs(c, got, want, what):
    """Same parameters, as multisets (floats up to rounding)."""
    c.eq(len(got), len(want), f'{what}: number of runs', runs=got)
    left = list(got)
    for w in want:
        for g in left:
            if same(g, w):
                left.remove(g)
                break
        else:
            c.fail(f'{what}: a run with other parameters', wanted=w,
                   runs=got)


def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and all(k in a and same(a[k], b[k])
                                           for k in b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(b, bool) or b is None or isinstance(b, str):
        return a == b
    return isclose(a, b, 1e-9, 1e-15) if isinstance(a, (int, float)) \
        else False


# --------------------------------------------------------------------------
# C01
# --------------------------------------------------------------------------
PING = dict(interval='-i', channel_delay='-ch', service_delay='-s',
            loss_prob='-l', max_pings='-mp')
RFID = dict(speed='-s', tid_word_size='-ws', altitude='-a',
            reader_offset='-ro', tag_offset='-to', power='-p')
ENC = {'1': 'FM0', '2': 'M2', '4': 'M4', '8': 'M8'}


def ping_args(rng):
    return dict(interval=rng.choice([0.5, 3.0, rng.uniform(.1, 9)]),
                channel_delay=rng.choice([.25, 2.0, rng.uniform(.1, 4)]),
                service_delay=rng.choice([0.0, 1.0, rng.uniform(0, 3)]),
                loss_prob=rng.choice([0.1, .5, .9, rng.random(), 0.0, 1.0]),
                max_pings=rng.choice([1, 2, 17, 60, 200]))


def spread(rng, one, n=None, near=None):
    """Several values, unsorted, with duplicates."""
    n = n or rng.choice([2, 2, 3, 4, 7])
    vals = []
    while len(set(vals)) < min(n, 2) or len(vals) < n:
        vals.append(one())
    if rng.random() < .3 if near is None else near:
        # a value hardly different from another
        v = rng.choice(vals)
        if isinstance(v, float) and v > 0:
            vals.insert(rng.randrange(len(vals)),
                        v * (1 - rng.choice([1e-7, 1e-9, 1e-12])))
    if rng.random() < .6:
        vals.insert(rng.randrange(len(vals)), rng.choice(vals))
    return vals


def ping_run(p):
    return dict(p, model='pingpong')


def rfid_args(rng):
    return dict(speed=rng.choice([150, 200, 333, 1000, 2500]), encoding=rng.choice(
        '1248'), tari=rng.choice(['6.25', '12.5', '18.75', '25', '25']),
        tid_word_size=rng.choice([1, 2, 8, 40, 100]),
        altitude=rng.choice([2.0, 3.5, 5.0, 4.25, 3.75, 2.5]),
        reader_offset=rng.choice([1.0, 3.0, 4.5, 2.75, 3.25, 3.5]),
        tag_offset=rng.choice([.5, 2.0, 3.0, 2.25, 1.75, 2.5]),
        power=rng.choice([0, 9, 20, 29, 33, -3]), num_tags=rng.choice([1, 2]),
        useadjust=rng.random() < .5, delta=rng.choice([.1, .5, .8]))


def rfid_run(p):
    tari = float(p['tari']) * 1e-6
    return dict(p, model='rfid', speed=p['speed'] / 3.6, tari=tari,
                encoding=ENC[p['encoding']], stop_at=p['num_tags'])


def rfid_cmdline(p, many=None, values=None):
    a = ['run', 'rfid', '-m', p['encoding'], '-t', p['tari'], '-n',
         str(p['num_tags']), '-d', str(p['delta'])]
    if p['useadjust']:
        a.append('-ua')
    for k, o in RFID.items():
        for v in (values if k == many else [p[k]]):
            a += [o, str(v)]
    return a


def ping_cmdline(p, many=None, values=None):
    a = ['run', 'pingpong']
    for k, o in PING.items():
        for v in (values if k == many else [p[k]]):
            a += [o, repr(v)]
    return a


def rows_of(text, head):
    """Cells of the table printed after a heading."""
    part = text.split(head, 1)
    if len(part) < 2:
        return None
    out = []
    for line in part[1].splitlines():
        if line.startswith('|'):
            out.append([x.strip() for x in line.strip().strip('|').split(
                '|')])
        elif out and not line.startswith('+'):
            break
    return out


def sweep_pingpong(c, rng, spy):
    m = cli_of('pingpong')
    p = ping_args(rng)
    if rng.random() < .3:
        p['loss_prob'] = rng.choice([0.0, 1.0])
    many = rng.choice(list(PING))
    values = spread(rng, lambda: ping_args(rng)[many],
                    rng.choice([None, None, None, None, None, 15, 37]))
    distinct = sorted(set(values))
    c.begin(dict(model='pingpong', many=many, values=values, others=p))

    def single(v):
        q = dict(p, **{many: v})
        with quiet(), spy.installed():
            r = m.create_config(dict(q))
        c.count('single runs')
        return r
    with quiet(), spy.installed():
        kw, variadic = m.check_vars_for_multiprocessing(
            **{k: tuple(values) if k == many else (v,)
               for k, v in p.items()})
        c.eq(variadic, many, 'parameter with several values')
        res = m.run_multiple_simulation(variadic, **kw)
    reap()
    expect_runs(c, spy.runs(), [ping_run(dict(p, **{many: v}))
                                for v in distinct], 'sweep')
    c.eq(len(res), len(distinct), 'results of a sweep')
    want = [single(v) for v in distinct]
    spy.runs()
    for v, a, b in zip(distinct, res, want):
        for f in ('avg_interval', 'avg_delay', 'miss_rate'):
            c.close(getattr(a, f), getattr(b, f), 'result of a sweep',
                    value=v, field=f)
    c.count('sweeps')
    c.seen(('pingpong', many, len(distinct)))
    # the same from the command line
    r = invoke(ping_cmdline(p, many, values), spy)
    c.eq(r.exit_code, 0, 'exit status of a sweep',
         exception=repr(r.exception), output=r.output[-800:])
    expect_runs(c, spy.runs(), [ping_run(dict(p, **{many: v}))
                                for v in distinct], 'command line sweep')
    rows = rows_of(r.output, 'Таблица результатов')
    for row in rows or ():
        if len(row) == 2 and row[0] in ('avg_interval', 'avg_delay',
                                        'miss_rate'):
            try:
                got = list(ast.literal_eval(row[1]))
            except Exception:
                continue
            c.eq(len(got), len(want), 'printed results', row=row)
            for a, b in zip(got, want):
                c.expect(same(a, getattr(b, row[0])), 'printed result',
                         row=row, want=[getattr(w, row[0]) for w in want])
            c.count('printed')
    for row in rows_of(r.output, 'Таблица параметров') or ():
        if len(row) == 2 and row[0] == many:
            try:
                got = list(ast.literal_eval(row[1]))
            except Exception:
                continue
            c.expect(same(got, distinct), 'printed values of the parameter',
                     got=got, want=distinct)
            c.count('printed')


def sweep_rfid(c, rng, spy, i):
    m = cli_of('rfid')
    p = rfid_args(rng)
    if i % 3:
        many = list(RFID)[(i // 3 * 2 + i % 3 - 1) % 6]
        values = spread(rng, lambda: rfid_args(rng)[many], near=i % 2 == 0)
    else:       # integers with different numbers of digits, unsorted
        many = rng.choice(['speed', 'tid_word_size', 'power'])
        values = dict(speed=[1000, 300, 2000, 990], power=[31, 9, 30, 100],
                      tid_word_size=[10, 9, 100, 2])[many]
        values = rng.sample(values, rng.choice([3, 4]))
        values = values + values[:rng.choice([0, 1])]
    library = rng.random() < .5
    if i % 4 == 1:      # a library caller may mix whole and real numbers
        many = rng.choice(['power', 'altitude', 'reader_offset', 'tag_offset',
                           'speed'])
        values = dict(power=[20, 20.5, 29, 21.25], speed=[150, 333.5, 1000],
                      altitude=[3, 3.5, 5, 2.75], tag_offset=[1, .5, 2, 2.5],
                      reader_offset=[1, 3, 4.5])[many]
        if rng.random() < .4:
            rng.shuffle(values)
        library = True
    if i == 5:          # many values
        many, library = 'speed', True
        values = rng.sample(range(900, 2500), rng.choice([18, 20]))
        p = dict(p, num_tags=rng.choice([1, 2]))
    distinct = sorted(set(values))
    c.begin(dict(model='rfid', many=many, values=values, others=p))
    runs = [rfid_run(dict(p, **{many: v})) for v in distinct]
    with quiet(), spy.installed():
        want = [m.prepare_simulation(dict(p, verbose=False, **{many: v}))[0]
                for v in distinct]
    expect_runs(c, spy.runs(), runs, 'single runs')
    if library:
        with quiet(), spy.installed():
            kw, variadic = m.check_vars_for_multiprocessing(
                verbose=False,
                **{k: tuple(values) if k == many else
                   (v,) if k in RFID else v for k, v in p.items()})
            c.eq(variadic, many, 'parameter with several values')
            res = m.prepare_multiple_simulation(variadic, **kw)
        reap()
        expect_runs(c, spy.runs(), runs, 'sweep')
        c.eq(len(res), len(distinct), 'results of a sweep')
        for v, a, b in zip(distinct, res, want):
            for k, x in b.items():
                c.expect(same(a[0][k], x), 'result of a sweep', value=v,
                         field=k, got=a[0][k], want=x)
        c.count('sweeps')
    else:
        r = invoke(rfid_cmdline(p, many, values), spy)
        c.eq(r.exit_code, 0, 'exit status of a sweep',
             exception=repr(r.exception), output=r.output[-800:])
        expect_runs(c, spy.runs(), runs, 'command line sweep')
        rows = rows_of(r.output, '# RESULTS')
        if rows and rows[0][0] == many:
            c.eq(len(rows) - 1, len(distinct), 'printed results', rows=rows)
            for row, v, w in zip(rows[1:], distinct, want):
                cells = dict(zip(rows[0], row))
                c.expect(same(float(cells[many]), float(v)),
                         'value printed with a result', row=row, want=v)
                for k, x in w.items():
                    if k in cells:
                        c.expect(same(float(cells[k]), float(x)),
                                 'printed result', row=row, field=k, want=x)
                        c.count('printed')
        c.count('sweeps')
    c.seen(('rfid', many, len(distinct)))


def time_args(rng):
    n = rng.choice([1, 2, 2, 3, 5, 5, 12, 33])
    probs = [tuple(rng.uniform(.5, 1) for _ in range(4)) for _ in range(n)]
    times = [tuple(rng.choice([rng.uniform(.1, 5), 1.0]) for _ in range(4))
             for _ in range(n)]
    # one set of probabilities with several sets of times, and vice versa
    for k in range(1, n):
        if rng.random() < .3:
            probs[k] = probs[k - 1]
        elif rng.random() < .3:
            times[k] = times[k - 1]
    return dict(
        probability=tuple(probs),
        processing_time=tuple(times),
        max_transmisions=rng.choice([1, 3, 20, 60]),
        chunks_number=rng.choice([1, 2, 3, 10]),
        scenario=rng.choice([1, 2, 3]))


def time_run(p, k):
    n = p['chunks_number'] if p['scenario'] == 3 else 1

    def ext(v):
        v = list(v)
        return v[:3] + [v[3]] * n
    return dict(model='tag_time', scenario=p['scenario'],
                probability=ext(p['probability'][k]),
                processing_time=ext(p['processing_time'][k]),
                max_transmisions=[p['max_transmisions']] * (3 + n),
                chunks=n if p['scenario'] == 3 else None)


def time_cmdline(p):
    a = ['run', 'tag_time', '-m', str(p['max_transmisions']), '-cn',
         str(p['chunks_number']), '-s', str(p['scenario'])]
    for q, t in zip(p['probability'], p['processing_time']):
        a += ['-p'] + [repr(x) for x in q] + ['-t'] + [repr(x) for x in t]
    return a


def sweep_time(c, rng, spy):
    m = cli_of('tag_time')
    p = time_args(rng)
    n = len(p['probability'])
    c.begin(dict(model='tag_time', args=p))
    with quiet(), spy.installed():
        want = [m.create_config(dict(
            p, probability=p['probability'][k],
            processing_time=p['processing_time'][k])) for k in range(n)]
        expect_runs(c, spy.runs(), [time_run(p, k) for k in range(n)],
                    'single runs')
        res = m.run_multiple_simulation(dict(p))
    reap()
    expect_runs(c, spy.runs(), [time_run(p, k) for k in range(n)], 'sweep')
    c.eq(len(res), n, 'results of a sweep')
    for k, (a, b) in enumerate(zip(res, want)):
        c.close(a.sim_time, b.sim_time, 'result of a sweep', which=k)
        c.eq(a.num_events_processed, b.num_events_processed,
             'events of a run', which=k)
    r = invoke(time_cmdline(p), spy)
    c.eq(r.exit_code, 0, 'exit status', exception=repr(r.exception),
         output=r.output[-800:])
    expect_runs(c, spy.runs(), [time_run(p, k) for k in range(n)],
                'command line')
    got = re.findall(r'(?<!last_)sim_time=([-+.e\d]+)', r.output)
    if got:
        c.expect(same([float(x) for x in got], [w.sim_time for w in want]),
                 'printed results', got=got,
                 want=[w.sim_time for w in want])
        c.count('printed')
    c.count('sweeps')
    c.seen(('tag_time', p['scenario'], n, p['chunks_number']))


@check('C01', 'sweeps over every parameter with unsorted and repeated values '
              'in all three models, through the functions and the command '
              'line; parameters of every run (also in worker processes), '
              'results against single runs that start with the same random '
              'numbers, refusal of every pair of parameters; distinct = '
              '(model, parameter, values)')
def c01(c):
    rng = c.rng
    spy = Spy()
    try:
        for i in range(c.n(20)):
            sweep_pingpong(c, rng, spy)
        for i in range(c.n(18)):
            sweep_rfid(c, rng, spy, i)
        for i in range(c.n(10)):
            sweep_time(c, rng, spy)
        # two at once
        for name, opts, args, line in (
                ('pingpong', PING, ping_args, ping_cmdline),
                ('rfid', RFID, rfid_args, rfid_cmdline)):
            m = cli_of(name)
            for a in opts:
                for b in opts:
                    if a >= b:
                        continue
                    p = args(rng)
                    va, vb = [], []
                    while len(set(va)) < 2:
                        va = spread(rng, lambda: args(rng)[a])
                    while len(set(vb)) < 2:
                        vb = spread(rng, lambda: args(rng)[b])
                    c.begin(dict(model=name, two=(a, b), values=(va, vb)))
                    kw = {k: (v,) if k in opts else v for k, v in p.items()}
                    kw[a], kw[b] = tuple(va), tuple(vb)
                    try:
                        with quiet():
                            m.check_vars_for_multiprocessing(**kw)
                    except Exception:
                        c.count('refused')
                    else:
                        c.fail('two parameters vary at once', two=(a, b))
                    if rng.random() < .3:
                        cmd = line(p, a, va)
                        for v in vb:
                            cmd += [opts[b], str(v)]
                        r = invoke(cmd, spy)
                        c.expect(r.exit_code != 0,
                                 'two parameters vary at once', cmd=cmd)
                        c.eq(spy.runs(), [], 'runs with two parameters')
                        c.count('refused by the command line')
    finally:
        reap()
        spy.close()
    c.need('sweeps', 30)
    c.need('refused', 20)


# --------------------------------------------------------------------------
# C02
# --------------------------------------------------------------------------
def python(args, cwd):
    env = dict(os.environ, PYTHONPATH=REPO, MPLBACKEND='Agg',
               PYTHONDONTWRITEBYTECODE='1')
    return subprocess.run([sys.executable, '-m'] + args, cwd=cwd, env=env,
                          capture_output=True, text=True, timeout=300)


def expected_models():
    d = os.path.join(REPO, 'pysim', 'models')
    out = []
    for n in sorted(os.listdir(d)):
        if os.path.isfile(os.path.join(d, n, 'cli.py')) and \
                os.path.isfile(os.path.join(d, n, '__init__.py')):
            out.append(n)
    return out


def listed(text):
    return sorted(x[1:].strip() for x in text.splitlines()
                  if x.strip().startswith('*'))


def defaults_of(name):
    """Defaults that --help shows."""
    cmd = cli_of(name).cli_run
    return {p.name: p.default for p in cmd.params}


def aborted(c, args, spy_):
    """Parameters of the model that a command line starts."""
    r = None
    try:
        r = invoke(args, spy_)
    except Stop:
        pass
    runs = spy_.runs()
    c.expect(len(runs) == 1, 'a command line runs one model', args=args,
             runs=runs, output=r.output[-600:] if r else None)
    return runs[0]


@check('C02', 'the list command, every model run by name in process and as '
              'a program, random option values against the parameters of '
              'the model that runs, defaults shown in the help, refused '
              'options; distinct = command line')
def c02(c):
    import click
    rng = c.rng
    spy, stopping = Spy(), Spy(abort=True)
    scratch = tempfile.mkdtemp(prefix='verif-cli-')
    try:
        models = expected_models()
        c.begin('list')
        r = invoke(['list'], spy)
        c.eq(r.exit_code, 0, 'exit status of list')
        c.eq(listed(r.output), models, 'listed models')
        p = python(['pysim.main', 'list'], scratch)
        c.eq(p.returncode, 0, 'exit status of list', stderr=p.stderr[-500:])
        c.eq(listed(p.stdout), models, 'listed models')
        r = invoke(['run', '--help'], spy)
        for name in models:
            c.expect(name in r.output, 'a model is missing in the help',
                     name=name)
            h = invoke(['run', name, '--help'], spy)
            c.eq(h.exit_code, 0, 'exit status of the help')
        c.eq(spy.runs(), [], 'nothing runs')
        # programs
        for args in (
                ['run', 'pingpong', '-mp', '30', '-l', '0.25', '-i', '2'],
                ['run', 'tag_time', '-m', '20', '-s', '3', '-cn', '2'],
                ['run', 'rfid', '-n', '1', '-s', '300', '-t', '25', '-ws',
                 '2'],
                ['run', 'rfid', '-n', '1', '-s', '300', '-t', '25', '-p',
                 '31', '-p', '20']):
            c.begin(dict(program=args))
            p = python(['pysim.main'] + args, scratch)
            c.eq(p.returncode, 0, 'exit status of a run',
                 stderr=p.stderr[-1500:], args=args)
            c.expect(len(p.stdout) > 20, 'a run prints its results')
            c.count('programs')
        for args in (['pysim.models.pingpong.cli', '-mp', '5'],
                     ['pysim.models.tag_time.cli', '-m', '5']):
            p = python(args, scratch)
            c.eq(p.returncode, 0, 'exit status of a model started alone',
                 stderr=p.stderr[-1500:], args=args)
            c.count('programs')
        p = python(['pysim.main', 'run', 'rfid', '-m', '3'], scratch)
        c.expect(p.returncode != 0, 'an invalid option is accepted')

        # option values
        long_ping = {k: '--' + k for k in PING}
        long_rfid = dict({k: '--' + k.replace('_', '-') for k in RFID},
                         encoding='--encoding', tari='--tari',
                         num_tags='--num-tags', delta='--delta')
        short_rfid = dict(RFID, encoding='-m', tari='-t', num_tags='-n',
                          delta='-d')
        for i in range(c.n(90)):
            kind = ('rfid', 'pingpong', 'tag_time')[i % 3]
            if kind == 'tag_time':
                p = time_args(rng)
                p['probability'] = p['probability'][:1]
                p['processing_time'] = p['processing_time'][:1]
                args, want = time_cmdline(p), time_run(p, 0)
                d = defaults_of('tag_time')
                if rng.random() < .4:       # some options left out
                    k = rng.choice(['-m', '-cn', '-s'])
                    j = args.index(k)
                    del args[j:j + 2]
                    name = {'-m': 'max_transmisions', '-cn':
                            'chunks_number', '-s': 'scenario'}[k]
                    p[name] = d[name]
                    want = time_run(p, 0)
            else:
                full = ping_args(rng) if kind == 'pingpong' else \
                    rfid_args(rng)
                if kind == 'rfid':
                    full.update(
                        speed=rng.randrange(1, 120), num_tags=rng.randrange(
                            1, 50), tid_word_size=rng.randrange(1, 120),
                        altitude=rng.choice([3, rng.uniform(1, 9)]),
                        reader_offset=rng.choice([0.0, rng.uniform(.5, 9)]),
                        tag_offset=rng.choice([0.0, rng.uniform(.5, 9)]),
                        power=rng.choice([0, -4, rng.randrange(5, 40)]),
                        delta=rng.uniform(.05, 1))
                d = defaults_of(kind)
                share = rng.choice([0, .3, .7, 1])
                given = {k: v for k, v in full.items()
                         if rng.random() < share}
                args = ['run', kind]
                items = list(given.items())
                rng.shuffle(items)
                for k, v in items:
                    if k == 'useadjust':
                        if v:
                            args.append(rng.choice(['-ua', '--useadjust']))
                        continue
                    o = rng.choice([long_ping, PING] if kind == 'pingpong'
                                   else [long_rfid, short_rfid])
                    s = v if isinstance(v, str) else repr(v)
                    args += [f'{o[k]}={s}'] if o[k].startswith('--') and \
                        rng.random() < .4 else [o[k], s]
                eff = {}
                for k in full:
                    v = given.get(k, d[k])
                    if isinstance(v, tuple):
                        v = v[0]
                    eff[k] = v
                if kind == 'rfid':
                    eff['useadjust'] = bool(given.get('useadjust',
                                                      d['useadjust']))
                want = ping_run(eff) if kind == 'pingpong' else \
                    rfid_run(eff)
            c.begin(dict(args=args))
            got = aborted(c, args, stopping)
            for k in want:
                c.expect(same(got[k], want[k]), 'an option does not reach '
                         'the model', option=k, got=got[k], want=want[k],
                         args=args)
            c.count('option sets')
            c.seen(tuple(args))

        # refused
        bad = [
            ['run'], ['run', 'nosuchmodel'], ['nosuchcommand'],
            ['run', 'rfid', '-m', '3'], ['run', 'rfid', '-m', 'FM0x'],
            ['run', 'rfid', '-t', '7'], ['run', 'rfid', '-t', '6'],
            ['run', 'rfid', '-s', 'fast'], ['run', 'rfid', '-n', 'x'],
            ['run', 'rfid', '-n', '1.5'], ['run', 'rfid', '-ws', 'y'],
            ['run', 'rfid', '-d', 'z'], ['run', 'rfid', '-a', ''],
            ['run', 'rfid', '--nosuch', '1'], ['run', 'rfid', 'extra'],
            ['run', 'rfid', '-p'], ['run', 'rfid', '-s', '10', '-s', '20',
                                    '-p', '20', '-p', '30'],
            ['run', 'pingpong', '-i', 'x'], ['run', 'pingpong', '-mp', 'x'],
            ['run', 'pingpong', '-mp', '1.5'], ['run', 'pingpong', '-l',
                                                'many'],
            ['run', 'pingpong', '-q', '1'], ['run', 'pingpong', '-i', '1',
                                             '-i', '2', '-s', '1', '-s',
                                             '2'],
            ['run', 'tag_time', '-s', '0'], ['run', 'tag_time', '-s', '4'],
            ['run', 'tag_time', '-s', '-1'], ['run', 'tag_time', '-s', 'x'],
            ['run', 'tag_time', '-s', '3', '-cn', '0'],
            ['run', 'tag_time', '-s', '3', '-cn', '-2'],
            ['run', 'tag_time', '-p', '1', '1', '1'],
            ['run', 'tag_time', '-m', 'x'],
            ['run', 'tag_time'] + ['-p', '.9', '.9', '.9', '.9'] * 2,
            ['run', 'tag_time'] + ['-p', '.9', '.9', '.9', '.9'] * 2 +
            ['-t', '1', '1', '1', '1'] * 3,
            ['run', 'tag_time'] + ['-t', '1', '1', '1', '1'] * 2,
        ]
        for args in bad:
            c.begin(dict(args=args))
            try:
                r = invoke(args, stopping)
            except Stop:
                r = None
            c.expect(r is not None and r.exit_code != 0,
                     'invalid options are accepted', args=args)
            c.eq(spy.runs() + stopping.runs(), [],
                 'a model runs with invalid options', args=args)
            c.count('refused')
            c.seen(tuple(args))
    finally:
        reap()
        spy.close()
        stopping.close()
        shutil.rmtree(scratch, ignore_errors=True)
    c.need('option sets', 60)
    c.need('refused', 25)


import checks.report  # noqa: E402,F401  (registers C03)
