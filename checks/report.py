"""C03: printed, saved and plotted results."""
import ast
import contextlib
import importlib
import io
import json
import os
import re
import shutil
import tempfile

from vlib.core import check, isclose


def processing_of(name):
    return importlib.import_module(f'pysim.models.{name}.processing')


@contextlib.contextmanager
def scratch(prepared):
    """A new working directory, with or without the results folders."""
    d = tempfile.mkdtemp(prefix='verif-report-')
    cwd = os.getcwd()
    os.chdir(d)
    try:
        if prepared:
            os.makedirs('results/text')
            os.makedirs('results/plots')
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


class Curves:
    """Everything drawn as a curve."""

    def __enter__(self):
        from matplotlib.axes import Axes
        self.seen, self.cls, self.plot = [], Axes, Axes.plot
        me = self

        def plot(ax, *a, **kw):
            lines = me.plot(ax, *a, **kw)
            for x in lines:
                me.seen.append(([float(v) for v in x.get_xdata()],
                                [float(v) for v in x.get_ydata()],
                                x.get_label()))
            me.axes = ax
            return lines
        Axes.plot = plot
        return self

    def __exit__(self, *exc):
        import matplotlib.pyplot as plt
        self.cls.plot = self.plot
        plt.close('all')


def files():
    out = []
    for d, _, names in os.walk('.'):
        out += [os.path.join(d, n) for n in names]
    return sorted(out)


def call(fn, *a, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn(*a, **kw)
    return out.getvalue()


def cells(text):
    """Rows of all printed tables."""
    return [[x.strip() for x in line.strip().strip('|').split('|')]
            for line in text.splitlines() if line.startswith('|')]


def number(x):
    try:
        return float(x)
    except ValueError:
        return None


def alike(got, want):
    """Numbers up to the last printed digits, everything else equal."""
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(
            alike(got[k], want[k]) for k in want)
    if isinstance(want, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and \
            all(alike(a, b) for a, b in zip(got, want))
    if isinstance(want, float):
        return isinstance(got, (int, float)) and isclose(got, want, 1e-9,
                                                         1e-12)
    return got == want


def saved(c, inputs, results):
    """The one saved text file holds the inputs and the results."""
    txt = [f for f in files() if f.endswith('.txt')]
    c.eq(len(txt), 1, 'saved files', files=txt)
    with open(txt[0], encoding='utf-8') as f:
        text = f.read()
    dec, found, at = json.JSONDecoder(), [], 0
    while True:
        m = re.compile(r'[\[{]').search(text, at)
        if m is None:
            break
        obj, at = dec.raw_decode(text, m.start())
        found.append(obj)
    c.eq(len(found), 2, 'values in the saved file', text=text)
    want_in = json.loads(json.dumps(inputs))
    c.expect(alike(found[0], want_in), 'saved parameters', got=found[0],
             want=want_in)
    c.expect(alike(found[1], results), 'saved results', got=found[1],
             want=results)
    c.count('files')


def value(rng):
    return rng.choice([rng.random(), rng.uniform(0, 100), 0.0, 1.0,
                       rng.random() * 1e-4])


# --------------------------------------------------------------------------
PING = ('interval', 'channel_delay', 'service_delay', 'loss_prob',
        'max_pings')
PING_RES = ('avg_interval', 'avg_delay', 'miss_rate')


def pingpong(c, rng):
    m = processing_of('pingpong')
    objects = importlib.import_module('pysim.models.pingpong.objects')
    many = rng.choice(PING) if rng.random() < .7 else None
    data = {k: rng.randint(1, 10 ** 6) if k == 'max_pings' else value(rng)
            for k in PING}
    n = rng.choice([2, 3, 5, 5, 14, 33])
    if many:
        data[many] = tuple(sorted({value(rng) + i for i in range(n)}))
        n = len(data[many])
    else:
        n = 1
    rows = [{k: value(rng) for k in PING_RES} for _ in range(n)]
    res = [objects.Result(**r) for r in rows]
    save, prepared = rng.random() < .6, rng.random() < .5
    c.begin(dict(model='pingpong', data=data, results=rows, save=save,
                 prepared=prepared))
    with scratch(prepared):
        out = call(m.result_processing, dict(data), res if many else res[0],
                   many, **({'save_results': True} if save else {}))
        c.eq(len([f for f in files() if f.endswith('.txt')]), int(save),
             'files saved only on request')
        cols = {k: [r[k] for r in rows] for k in PING_RES}
        if save:
            saved(c, data, cols if many else rows[0])
    if many:
        table = {r[0]: r[1] for r in cells(out) if len(r) == 2}
        for k in PING:
            c.expect(alike(ast.literal_eval(table[k]), data[k]),
                     'printed parameter', name=k, got=table[k],
                     want=data[k])
        for k in PING_RES:
            c.expect(alike(ast.literal_eval(table[k]), cols[k]),
                     'printed result', name=k, got=table[k], want=cols[k])
    else:
        got = [number(x) for x in re.findall(r'= *([-+.\de]+) *$', out,
                                             re.M)]
        c.expect(alike(got, [rows[0][k] for k in PING_RES]),
                 'printed results', got=got, want=rows[0], text=out)
    c.count('reports')
    c.seen(('pingpong', many, n, save, prepared))


# --------------------------------------------------------------------------
RFID = ('speed', 'tid_word_size', 'altitude', 'reader_offset', 'tag_offset',
        'power')
RFID_RES = ('read_tid_prob', 'inventory_prob', 'rounds_per_tag')


def rfid(c, rng, i):
    m = processing_of('rfid')
    many = RFID[i // 4 % 6] if i % 4 else None
    data = {k: rng.randint(1, 200) if k in ('speed', 'tid_word_size',
                                            'power') else value(rng)
            for k in RFID}
    data.update(encoding=rng.choice('1248'), num_tags=rng.randint(1, 99),
                tari=rng.choice(['6.25', '12.5', '18.75', '25']),
                verbose=False, useadjust=rng.random() < .5,
                delta=rng.random())
    n = 1
    if many:
        vals = {rng.randint(1, 300) if isinstance(data[many], int)
                else round(rng.uniform(0, 9), 3)
                for _ in range(rng.choice([2, 3, 6, 6, 14, 40]))}
        vals |= {500, 501}
        order = list(vals) + [rng.choice(sorted(vals))]
        rng.shuffle(order)
        data[many], n = tuple(order), len(vals)
    rows = [{k: value(rng) for k in RFID_RES} for _ in range(n)]
    for r in rows:
        r['avg_qadjust'] = [rng.randint(0, 9) for _ in range(3)]
    times = [rng.choice([rng.uniform(.1, 90), rng.uniform(.1, 90), 1.5])
             for _ in rows]
    res = list(zip(rows, times)) if many else (rows[0], times[0])
    save, prepared = rng.random() < .6, rng.random() < .5
    c.begin(dict(model='rfid', data=data, results=res, save=save,
                 prepared=prepared, many=many))
    with scratch(prepared), Curves() as curves:
        inputs = dict(data)
        out = call(m.result_processing, inputs, res, many,
                   **({'save_results': True} if save else {}))
        found = files()
        c.eq(len([f for f in found if f.endswith('.txt')]),
             int(save and bool(many)), 'files saved only on request',
             files=found)
        cols = {k: [r[k] for r in rows] for k in RFID_RES}
        if many:
            xs = sorted(set(data[many]))
            if save:
                saved(c, dict(data, **{many: xs}), cols)
            c.eq(len([f for f in found if f.endswith('.png')]), 1,
                 'plots of a sweep', files=found)
            c.eq(len(curves.seen), 1, 'curves')
            x, y, label = curves.seen[0]
            c.expect(alike(x, [float(v) for v in xs]), 'plotted values',
                     got=x, want=xs)
            c.expect(alike(y, cols['read_tid_prob']), 'plotted results',
                     got=y, want=cols['read_tid_prob'])
            c.expect(data['encoding'] in label and data['tari'] in label,
                     'label of the curve', got=label)
            c.expect(many in curves.axes.get_xlabel(),
                     'label of the axis', got=curves.axes.get_xlabel())
            c.count('plots')
    table = cells(out)
    if many:
        head = next(r for r in table if r[0] == many and r[1] in RFID_RES)
        at = table.index(head)
        for r in table[:at]:
            if r[0] in data:
                want = data[r[0]]
                c.expect(r[1] == want or isinstance(want, (int, float)) and
                         alike(number(r[1]), float(want)),
                         'printed parameter', name=r[0], got=r[1],
                         want=want)
                c.count('static parameters')
        names = {r[0] for r in table[:at]}
        for k in RFID + ('encoding', 'tari', 'num_tags'):
            c.expect(k == many or k in names, 'a parameter is not printed',
                     name=k, table=table[:at])
        body = table[at + 1:]
        c.eq(len(body), n, 'printed rows', table=table)
        for r, v, w in zip(body, xs, rows):
            got = dict(zip(head, map(number, r)))
            c.expect(alike(got, dict({many: float(v)},
                                     **{k: w[k] for k in RFID_RES})),
                     'printed results', got=got, value=v, want=w)
        c.close(float(re.findall(r'= *([-+.\de]+) *с', out)[-1]),
                sum(times) / n, 'average duration of a simulation')
    else:
        got = {r[0]: r[1] for r in table}
        for k in RFID_RES:
            c.expect(alike(number(got[k]), rows[0][k]), 'printed result',
                     name=k, got=got[k], want=rows[0][k])
        c.expect(repr(times[0]) in out or
                 f'{times[0]}' in out, 'printed duration', text=out)
    c.count('reports')
    c.seen(('rfid', many, n, save, prepared))


# --------------------------------------------------------------------------
class Timed:
    def __init__(self, t):
        self.sim_time = t


def tag_time(c, rng):
    m = processing_of('tag_time')
    n = rng.choice([1, 1, 2, 3, 5, 13, 40])
    p = tuple(tuple(rng.random() for _ in range(4)) for _ in range(n))
    t = tuple(tuple(rng.uniform(0, 9) for _ in range(4)) for _ in range(n))
    data = dict(probability=p if n > 1 else p[0],
                processing_time=t if n > 1 else t[0],
                max_transmisions=rng.choice([1, 7, 2000]),
                chunks_number=rng.randint(1, 20), scenario=rng.choice(
                    [1, 2, 3]))
    times = [rng.choice([rng.uniform(1, 1e5), rng.uniform(1, 1e5), 750.0])
             for _ in range(n)]
    res = [Timed(x) for x in times] if n > 1 else Timed(times[0])
    mode = rng.choice(['default', 'nothing', 'both', 'plot'])
    kw = dict(default={}, nothing=dict(save_res=False),
              both=dict(save_res=True, plot_res=True),
              plot=dict(save_res=False, plot_res=True))[mode]
    prepared = rng.random() < .5
    c.begin(dict(model='tag_time', data=data, times=times, mode=mode,
                 prepared=prepared))
    want = [x / data['max_transmisions'] for x in times]
    with scratch(prepared), Curves() as curves:
        out = call(m.result_processing, dict(data), res, **kw)
        found = files()
        many = n > 1
        c.eq((len([f for f in found if f.endswith('.txt')]),
              len([f for f in found if f.endswith('.png')])),
             (int(many and mode in ('default', 'both')),
              int(many and mode in ('plot', 'both'))), 'saved files',
             files=found)
        if many and mode in ('default', 'both'):
            saved(c, data, want)
        if many and mode in ('plot', 'both'):
            c.eq(len(curves.seen), 1, 'curves')
            c.expect(alike(curves.seen[0][1], want), 'plotted results',
                     got=curves.seen[0], want=want)
            c.expect(alike(curves.seen[0][0], [float(i) for i in range(n)]),
                     'plotted values', got=curves.seen[0])
            c.count('plots')
    if many:
        got = ast.literal_eval(re.search(r'\[.*\]', out).group(0))
        c.expect(alike(got, want), 'printed results', got=got, want=want)
    else:
        got = [number(x) for x in re.findall(r': *([-+.\de]+) *$', out,
                                             re.M)]
        c.expect(alike(got, [times[0], want[0]]), 'printed results',
                 got=got, want=[times[0], want[0]], text=out)
    c.count('reports')
    c.seen(('tag_time', n, mode, prepared))


@check('C03', 'random results and parameters given to the report of every '
              'model, with and without existing result folders; printed '
              'numbers, saved files and drawn curves against them; distinct '
              '= (model, swept parameter, values, saved, folders)')
def c03(c):
    rng = c.rng
    for i in range(c.n(100)):
        if i % 5 < 3:
            rfid(c, rng, i // 5 * 3 + i % 5)
        else:
            (pingpong, tag_time)[i % 5 - 3](c, rng)
    c.sample(c.case_info)
    c.need('reports', 50)
    c.need('files', 8)
    c.need('plots', 8)
