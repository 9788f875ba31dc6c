"""C05, C06, T06: discovery of models, graph helpers, the notebook."""
import contextlib
import json
import locale
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from vlib import core
from vlib import refstd as R
from vlib.core import check, quiet

REPO = core.REPO


# --------------------------------------------------------------------------
# C05
# --------------------------------------------------------------------------
DRIVER = r'''
import contextlib, io, json, sys
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
noise = io.StringIO()
with contextlib.redirect_stdout(noise):
    import pysim.main as m
    from click.testing import CliRunner
assert m.__file__.startswith(sys.argv[1]), m.__file__
out = []
for args in json.load(open(sys.argv[2])):
    r = CliRunner().invoke(m.cli, args)
    e = r.exception
    out.append([args, r.exit_code, r.output,
                None if e is None or isinstance(e, SystemExit) else repr(e)])
json.dump(out, open(sys.argv[3], 'w'))
'''

COMMAND = '''import click
@click.command({cname})
@click.option('-{short}', '--{opt}', default={default}, help='HELP-{mark}')
@click.option('--loud', is_flag=True)
def cli_run({opt}, loud):
    print('RAN {mark}', repr({opt}), loud)
'''

GROUP = '''import click
@click.group({cname})
def cli_run():
    """HELP-{mark}"""

@cli_run.command()
@click.option('-{short}', '--{opt}', default={default})
def go({opt}):
    print('RAN {mark}', repr({opt}), False)
'''

MANY = '''import click
@click.command()
def other():
    print('RAN other')

@click.command()
def run():
    print('RAN wrong')

@click.group()
def cli():
    pass
''' + COMMAND.replace('import click\n', '')

BY_HAND = '''import click

def body({opt}, loud):
    print('RAN {mark}', repr({opt}), loud)

cli_run = click.Command('by_hand', callback=body, help='HELP-{mark}',
    params=[click.Option(['-{short}', '--{opt}'], default={default},
                         help='HELP-{mark}'),
            click.Option(['--loud'], is_flag=True)])
'''

BAD = {
    'no cli': None,
    'empty cli': '',
    'other name': 'import click\n@click.command()\ndef run():\n    pass\n',
    'plain function': 'def cli_run():\n    print("RAN bad")\n',
    'no function': 'cli_run = None\n',
    'text': 'cli_run = "run"\n',
    'missing package': 'import click\nimport not_installed_zzz\n'
                       '@click.command()\ndef cli_run():\n    pass\n',
    'missing sibling': 'import click\nfrom .absent import nothing\n'
                       '@click.command()\ndef cli_run():\n    pass\n',
    'missing pysim module': 'import click\nimport pysim.models.gone.model\n'
                            '@click.command()\ndef cli_run():\n    pass\n',
}
NAMES = ['echo', 'aloha', 'mc2', 'ping', 'pingpong2', 'rfid_v2', 'Zeta', 'a',
         'tag_time_old', 'list', 'run', 'model', 'cli', 'x9', 'long_model_name',
         'B', 'zz', '_first', 'tag', 'slotted_aloha', 'handlers', 'models']
OPTS = [('n', 'number', '3', int), ('t', 'text', "'abc'", str),
        ('r', 'rate', '0.25', float)]
VALUES = {int: [0, 7, -4, 10 ** 9], float: [0.5, 1e-6, -2.0, 3.25],
          str: ['x', 'two words', '', 'Привет']}
REAL = ['pingpong', 'rfid', 'tag_time']


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf8') as f:
        f.write(text)


def new_tree(d):
    """A pysim package of links to the one under test, models left out."""
    src = os.path.join(REPO, 'pysim')
    os.makedirs(os.path.join(d, 'pysim', 'models'))
    for e in os.listdir(src):
        if e not in ('models', '__pycache__'):
            os.symlink(os.path.join(src, e), os.path.join(d, 'pysim', e))
    for e in os.listdir(os.path.join(src, 'models')):
        full = os.path.join(src, 'models', e)
        if not os.path.isdir(full) or not os.path.exists(
                os.path.join(full, 'cli.py')):
            if e != '__pycache__':
                os.symlink(full, os.path.join(d, 'pysim', 'models', e))
    return os.path.join(d, 'pysim', 'models')


GOOD = ['command', 'group', 'many', 'by hand', 'elsewhere', 'helpers']


def deck(rng, kinds):
    """Every kind in turn, in random order."""
    while True:
        for k in rng.sample(kinds, len(kinds)):
            yield k


def good_model(rng, models, name, init, kind):
    short, opt, default, typ = rng.choice(OPTS)
    mark = f'{name}-{rng.randrange(10 ** 6)}'
    fmt = dict(cname=rng.choice(['', '', "'other'", "'echo'", "'cli-run'"]),
               short=short, opt=opt, default=default, mark=mark)
    base = os.path.join(models, name)
    if kind == 'elsewhere':
        write(os.path.join(base, 'model.py'), COMMAND.format(**fmt))
        write(os.path.join(base, 'cli.py'), 'from .model import cli_run\n')
    elif kind == 'helpers':
        write(os.path.join(base, 'deep', 'tools.py'), f'WORD = {mark!r}\n')
        write(os.path.join(base, 'deep', '__init__.py'), '')
        write(os.path.join(base, 'cli.py'),
              f'from pysim.models.{name}.deep.tools import WORD\n' +
              COMMAND.format(**fmt))
    else:
        text = {'command': COMMAND, 'group': GROUP, 'many': MANY,
                'by hand': BY_HAND}[kind]
        write(os.path.join(base, 'cli.py'), text.format(**fmt))
    if init:
        write(os.path.join(base, '__init__.py'), '')
    return dict(name=name, kind=kind, mark=mark, opt=opt, short=short,
                typ=typ, default=typ(default.strip("'")), init=init)


def bad_model(rng, models, name, kind):
    base = os.path.join(models, name)
    if kind == 'file':
        write(base + '.py', 'import click\n@click.command()\n'
              'def cli_run():\n    print("RAN bad")\n')
    elif kind == 'empty folder':
        os.makedirs(base)
    elif kind == 'data folder':
        write(os.path.join(base, 'results', 'data.json'), '{}')
    else:
        if rng.random() < .7 or kind == 'no cli':
            write(os.path.join(base, '__init__.py'), '')
        write(os.path.join(base, 'model.py'), 'X = 1\n')
        if BAD[kind] is not None:
            write(os.path.join(base, 'cli.py'), BAD[kind])
    return dict(name=name, kind=kind)


def starred(text):
    return [x[2:].strip() for x in text.splitlines() if x.startswith('* ')]


def call_args(rng, m):
    """Command line of a model and what it must print."""
    value, loud = m['default'], False
    args = ['run', m['name']] + (['go'] if m['kind'] == 'group' else [])
    if rng.random() < .7:
        value = rng.choice(VALUES[m['typ']])
        args += [rng.choice(['-' + m['short'], '--' + m['opt']]), str(value)]
    if m['kind'] != 'group' and rng.random() < .4:
        loud = True
        args.append('--loud')
    return args, f"RAN {m['mark']} {value!r} {loud}"


def python_in(d, args, cwd):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d)
    env.pop('PYTHONSAFEPATH', None)
    return subprocess.run([sys.executable] + args, cwd=cwd, env=env,
                          capture_output=True, text=True, timeout=300)


@check('C05', 'random sets of model folders next to the models of the project '
              '(with and without __init__.py, commands and groups, malformed '
              'folders); the list and every model run with its own options; '
              'distinct = set of folders')
def c05(c):
    rng = c.rng
    goods = deck(rng, GOOD)
    bads = deck(rng, sorted(BAD) + ['file', 'empty folder', 'data folder'])
    for i in range(c.n(14)):
        d = tempfile.mkdtemp(prefix='verif-models-')
        try:
            models = new_tree(d)
            names = rng.sample(NAMES, rng.randint(2, 8))
            if i == 2:
                names += [f'model_{k}' for k in range(25)]
            real = [x for x in REAL if os.path.exists(
                os.path.join(REPO, 'pysim', 'models', x, 'cli.py'))]
            real = real if i == 0 else rng.sample(
                real, rng.choice([0, 0, 1, len(real)]))
            for x in real:
                os.symlink(os.path.join(REPO, 'pysim', 'models', x),
                           os.path.join(models, x))
            good, bad = [], []
            for name in names:
                if rng.random() < .6:
                    good.append(good_model(rng, models, name,
                                           rng.random() < .5, next(goods)))
                else:
                    bad.append(bad_model(rng, models, name,
                                         next(bads)))
            case = dict(good=good, bad=bad, real=real)
            case = json.loads(json.dumps(case, default=str))
            c.begin(case)
            calls, want = [['list']], [None]
            for m in good:
                for _ in range(2):
                    a, w = call_args(rng, m)
                    calls.append(a)
                    want.append(w)
                calls.append(['run', m['name'], '--help'])
                want.append('help')
                calls.append(['run', m['name'], '--no-such-option'])
                want.append('refused')
            for m in bad:
                calls.append(['run', m['name']])
                want.append('refused')
            for x in real:
                calls.append(['run', x, '--help'])
                want.append('real')
            calls.append(['run', 'nobody'])
            want.append('refused')
            calls.append(['run', '--help'])
            want.append('run help')
            order = list(range(len(calls)))
            rng.shuffle(order)
            calls = [calls[k] for k in order]
            want = [want[k] for k in order]
            write(os.path.join(d, 'driver.py'), DRIVER)
            write(os.path.join(d, 'calls.json'), json.dumps(calls))
            out = os.path.join(d, 'out.json')
            r = python_in(d, ['driver.py', d, 'calls.json', out], d)
            c.expect(os.path.exists(out) and r.returncode == 0,
                     'the command line cannot be started',
                     stderr=r.stderr[-1500:])
            got = json.load(open(out))
            expected = sorted([m['name'] for m in good] + real)
            for (args, code, text, err), w in zip(got, want):
                info = dict(args=args, code=code, output=text[-800:],
                            error=err)
                c.expect(err is None, 'a call crashed', **info)
                c.count('calls')
                if args == ['list']:
                    c.eq(code, 0, 'exit code of the list', **info)
                    c.eq(sorted(starred(text)), expected,
                         'listed models', **info)
                elif w == 'refused':
                    c.expect(code != 0 and 'RAN' not in text,
                             'a call that cannot be served is refused', **info)
                    c.count('refused')
                elif w == 'run help':
                    c.eq(code, 0, 'exit code of the help', **info)
                    words = re.findall(r'^  (\S+)', text.split(
                        'Commands:')[-1], re.M) if 'Commands:' in text else []
                    c.eq(sorted(words), expected, 'models in the help of run',
                         **info)
                elif w == 'real':
                    c.eq(code, 0, 'exit code of the help', **info)
                    c.count('models of the project')
                elif w == 'help':
                    m = next(m for m in good if m['name'] == args[1])
                    c.eq(code, 0, 'exit code of the help', **info)
                    c.expect('HELP-' + m['mark'] in text,
                             'help of the model itself', **info)
                else:
                    c.eq(code, 0, 'exit code of a model', **info)
                    c.expect(w in text.splitlines() and
                             text.count('RAN') == 1,
                             'the model called by name ran with its options',
                             wanted=w, **info)
                    c.count('runs')
            c.count('models', len(good))
            c.count('left out', len(bad))
            c.count('without __init__', sum(not m['init'] for m in good))
            if i % 4 == 0:          # as a program
                r = python_in(d, ['-m', 'pysim.main', 'list'], '/')
                c.eq(r.returncode, 0, 'exit code of the list',
                     stderr=r.stderr[-800:])
                c.eq(sorted(starred(r.stdout)), expected,
                     'listed models (as a program)', output=r.stdout)
                r = python_in(d, ['-c', 'from pysim.main import cli; cli()',
                                  'list'], '/')
                c.eq(sorted(starred(r.stdout)), expected,
                     'listed models (as the sim command)', output=r.stdout)
                c.count('programs')
            c.seen((sorted((m['name'], m['kind'], m['init']) for m in good),
                    sorted((m['name'], m['kind']) for m in bad), real))
            c.sample(case, 2)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    c.need('runs', 30)
    c.need('left out', 5)
    c.need('without __init__', 5)


# --------------------------------------------------------------------------
# C06
# --------------------------------------------------------------------------
@contextlib.contextmanager
def experiments():
    """The folder of the notebooks as the import folder of ``utility``."""
    d = os.path.join(REPO, 'pysim', 'experiments')
    sys.path.insert(0, d)
    try:
        yield d
    finally:
        sys.path.remove(d)


def tree(d):
    return sorted(os.path.relpath(os.path.join(a, f), d)
                  for a, _, fs in os.walk(d) for f in fs)


MAGIC = {'png': b'\x89PNG', 'pdf': b'%PDF', 'svg': b'<?xml', 'jpg': b'\xff\xd8',
         'eps': b'%!PS', 'ps': b'%!PS'}


@check('C06', 'colours over 0..1, saved figures under random names, '
              'extensions and folders, tick labels of random values; '
              'distinct = case')
def c06(c):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    with experiments():
        import utility.graphs_style as gs
    c.expect(os.path.abspath(gs.__file__).startswith(REPO + os.sep),
             'module under test')
    rng = c.rng
    # colours
    table = matplotlib.colormaps[gs.CMAP_NAME]
    for i in range(c.n(1500)):
        x = rng.choice([0.0, 1.0, .5, i / 1500, rng.random(),
                        rng.randint(0, 10) / 10, np.float64(rng.random())])
        c.begin(dict(x=float(x)))
        got = to_rgba(gs.get_color(x))
        c.expect(np.allclose(got, to_rgba(table(float(x))), atol=1e-9),
                 'colour of the current map', x=float(x), got=got)
        c.seen(('colour', tuple(np.round(got, 4))))
        c.count('colours')
    # files
    for i in range(c.n(60)):
        d = tempfile.mkdtemp(prefix='verif-figures-')
        cwd = os.getcwd()
        os.chdir(d)
        try:
            bare = rng.choice(['fig', 'BER 1%', 'a.b', 'график', '3_scenario',
                               'x' * rng.randint(1, 40), 'v1.2.3'])
            name = rng.choice([bare, bare, ' ' + bare, bare + '  ',
                               '\t' + bare + '\n', None, '', '   ', '\n'])
            folder = rng.choice([None, 'out', 'deep/er', 'with space', d])
            exts = rng.choice([None, ('png',), ['pdf'], ('png', 'svg'), (),
                               ['svg', 'pdf', 'png'], ('jpg', 'png'),
                               ('eps', 'png'), ('ps', 'svg', 'jpg', 'png'),
                               ['eps', 'pdf', 'svg', 'jpg', 'ps', 'png']])
            colours = rng.sample(['red', 'lime', 'blue'], 2)
            c.begin(dict(name=name, folder=folder, exts=exts))
            plt.close('all')
            for col in colours:      # the last one is the current figure
                plt.figure(figsize=(rng.randint(1, 4), rng.randint(1, 4)),
                           facecolor=col)
            kw = {}
            if exts is not None:
                kw['exts'] = exts
            if folder is not None:
                kw['directory'] = folder
            where = gs.IMAGE_BASE_DIR if folder is None else folder
            os.makedirs(where, exist_ok=True)
            plt.rcParams['savefig.facecolor'] = 'auto'
            if rng.random() < .4 and name is not None and name.strip():
                # an older figure of that name is replaced
                plt.figure(facecolor='black')
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    gs.savefig(name, **kw)
                plt.close()
                c.count('saved again')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if rng.random() < .3 and folder is not None and \
                        exts is not None:
                    ret = gs.savefig(name, exts, folder)
                else:
                    ret = gs.savefig(name, **kw)
            c.eq(ret, None, 'result of savefig')
            todo = gs.IMAGE_EXTENSIONS if exts is None else exts
            blank = name is None or not name.strip()
            want = [] if blank else sorted(
                os.path.relpath(os.path.join(where, f'{bare}.{e}'), d)
                for e in set(todo))
            got = tree(d)
            c.eq(got, want, 'files written')
            for f in got:
                data = open(os.path.join(d, f), 'rb').read()
                ext = f.rsplit('.', 1)[1]
                c.expect(data.startswith(MAGIC[ext]) and len(data) > 100,
                         'format of a file', file=f, head=data[:20])
                if ext == 'png':
                    px = plt.imread(os.path.join(d, f))
                    c.expect(np.allclose(px[..., :3].reshape(-1, 3).mean(0),
                                         to_rgba(colours[-1])[:3], atol=.05),
                             'the current figure is saved', file=f)
                    c.count('pictures')
                c.count('files')
            c.eq(len(plt.get_fignums()), 2, 'figures left open')
            c.count('nothing saved' if blank else 'saved')
            c.seen(('file', name, folder, repr(exts)))
        finally:
            plt.close('all')
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
    # labels
    import platform
    here = platform.system()
    for i in range(c.n(120)):
        plt.close('all')
        fig, axs = plt.subplots(1, 16 if i % 20 == 19 else 4)
        axs = list(axs)
        rng.shuffle(axs)
        groups, chosen = [], []
        pool = list(axs)
        ones = i % 40 == 39     # many axes, one by one
        for _ in range(12 if ones else rng.randint(0, 3)):
            k = 1 if ones else rng.randint(max(1, len(pool) // 2) if len(
                axs) > 4 and not groups else 1, max(1, len(pool) - 1))
            part, pool = pool[:k], pool[k:]
            if not part:
                break
            chosen += part
            groups.append(part[0] if len(part) == 1 and rng.random() < .7
                          else rng.choice([list, tuple])(part))
        ux, uy = rng.random() < .6, rng.random() < .6
        platforms = rng.choice([None, None, (), (here,), ('Windows',),
                                ('Darwin', here), ['Java']])
        kw = dict(use_x=ux, use_y=uy)
        if rng.random() < .2:
            kw.pop('use_x')
            ux = False
        if rng.random() < .2:
            kw.pop('use_y')
            uy = False
        if len(axs) > 4:
            kw, ux, uy, platforms = dict(use_y=True), False, True, ()
        if platforms is not None:
            kw['platforms'] = platforms
        active = platforms is not None and (not platforms or
                                            here in platforms) or \
            platforms is None and here == 'Linux'
        c.begin(dict(groups=[len(g) if isinstance(g, (list, tuple)) else 0
                             for g in groups], use_x=ux, use_y=uy,
                     platforms=platforms))
        before = {(a, w): getattr(a, w).get_major_formatter()
                  for a in axs for w in ('xaxis', 'yaxis')}
        minor = {(a, w): getattr(a, w).get_minor_formatter()
                 for a in axs for w in ('xaxis', 'yaxis')}
        gs.set_axes_formatter(*groups, **kw)
        for a in axs:
            for w, flag in (('xaxis', ux), ('yaxis', uy)):
                now = getattr(a, w).get_major_formatter()
                hit = active and flag and a in chosen
                c.eq(now is not before[a, w], hit,
                     'labels changed exactly on the chosen axes', axis=w)
                c.expect(getattr(a, w).get_minor_formatter() is minor[a, w],
                         'minor labels are left alone', axis=w)
                c.count('axes changed' if hit else 'axes left')
                if not hit:
                    continue
                for _ in range(6):
                    v = rng.choice([
                        0, 0.0, 1, -1, rng.randint(-10 ** 6, 10 ** 6),
                        rng.random(), -rng.random(), 1e-5, 2.5, 1e6, 1e7,
                        rng.uniform(-1e4, 1e4), 10 ** rng.uniform(-9, 9),
                        float(rng.randint(0, 10 ** 7)), 1234567.5,
                        np.float64(rng.uniform(-100, 100)), 123456.0,
                        np.int64(rng.randint(0, 10 ** 5))])
                    text = now(v, rng.randrange(9))
                    c.expect(isinstance(text, str) and '\u202f' not in text,
                             'label', value=float(v), text=text)
                    try:
                        back = float(text)
                    except ValueError:
                        c.fail('a label is no number', value=float(v),
                               text=text)
                    c.close(back, float(v), 'label denotes the tick',
                            rel=6e-6, abs_=1e-300, text=text)
                    c.count('labels')
                    c.seen(('label', text))
        plt.close('all')
    c.need('pictures', 5)
    c.need('labels', 100)


# --------------------------------------------------------------------------
# T06
# --------------------------------------------------------------------------
def code_cells(path):
    with open(path, encoding='utf8') as f:
        nb = json.load(f)
    return [''.join(x['source']) for x in nb['cells']
            if x['cell_type'] == 'code' and ''.join(x['source']).strip()]


def run_notebook(path, fixed):
    """Executes the cells in the current directory; returns the namespace."""
    from checks.cli import reap
    ns = {'__name__': 'notebook'}
    old, asked = locale.setlocale, []

    def setlocale(cat, name=None):
        if name is None:
            return old(cat)
        asked.append(name)
        return 'C'
    locale.setlocale = setlocale
    try:
        with quiet(), experiments():
            for cell in code_cells(path):
                if cell.lstrip()[:1] in '%!':
                    continue
                exec(compile(cell, 'notebook', 'exec'), ns)
                for k, v in fixed.items():
                    if k in ns:
                        ns[k] = v
    finally:
        locale.setlocale = old
        reap()
    return ns


def number_in(label):
    return [int(x) for x in re.findall(r'\d+', label)]


@check('T06', 'the whole notebook with other constants: all three scenarios, '
              'encodings, divide ratios, Tari, word and chunk numbers, error '
              'rates; every curve against the exact mean built from the Gen2 '
              'reference; distinct = parameters')
def t06(c):
    import logging
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from checks.tagtime import (DRS, MS, exact_mean, exact_sd, t05_params)
    rng = c.rng
    path = os.path.join(REPO, 'pysim', 'experiments',
                        'analitical_graphs.ipynb')
    rc = dict(matplotlib.rcParams)
    logging.getLogger('matplotlib.font_manager').setLevel(logging.ERROR)
    for i in range(c.n(6)):
        tari, dr, m, trext = t05_params(rng)
        scenario = (i + c.worker) % 3 + 1
        chunks = 1 if scenario < 3 else rng.choice([2, 3, 4, 5])
        points = rng.randint(1, 4)
        if scenario == 3 and i < 3:
            chunks, points = rng.choice([4, 5]), rng.choice([1, 2, 3])
        words = [w * chunks for w in rng.sample(
            range(1, 9 if scenario == 3 else 33), 4)]
        rng.shuffle(words)
        trials = rng.choice([500, 800])
        long = max(words) * 16 + 250
        top = rng.uniform(.3, 1.2) / long
        ber = np.linspace(rng.choice([0, 0, top / 7]), top, num=points)
        if i % 2:
            ber = ber[::-1].copy()
        fixed = dict(POINTS_NUMBER=points, BER=ber, M=MS[m], DR=DRS[dr],
                     DEFAULT_MAX_TRANSMISSIONS=trials, TARI_US=tari,
                     TRExt=trext, scenario=scenario,
                     words_numbers=tuple(words), chunks_number=chunks)
        seed = rng.randrange(2 ** 32)
        np.random.seed(seed)
        random.seed(seed)
        info = dict(tari=tari, dr=dr, m=m, trext=trext, scenario=scenario,
                    chunks=chunks, words=words, ber=list(map(float, ber)),
                    trials=trials, seed=seed)
        c.begin(info)
        c.sample(info, 2)
        d = tempfile.mkdtemp(prefix='verif-notebook-')
        cwd = os.getcwd()
        os.chdir(d)
        os.mkdir('img')
        plt.close('all')
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                ns = run_notebook(path, fixed)
                lines = [(ln.get_label(), list(map(float, ln.get_xdata())),
                          list(map(float, ln.get_ydata())))
                         for f in plt.get_fignums()
                         for ax in plt.figure(f).axes for ln in ax.lines]
            saved = tree(d)
        finally:
            plt.close('all')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                matplotlib.rcParams.update(rc)
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        for k in fixed:
            c.expect(k in ns, 'a constant of the notebook', name=k)
        c.eq(len(saved), 1, 'one picture is saved', files=saved)
        c.expect(saved[0].startswith(f'img/{scenario}_scenario'),
                 'picture named after the scenario', files=saved)
        # what must come out
        ta = tari * 1e-6
        rt = 2.75 * ta
        tr = 1.95 * rt
        t12 = R.t_max(1, rt, tr, dr) + R.t_max(2, rt, tr, dr)
        over = R.preamble_bits(m, trext) + 1
        cmds = [R.reader_frame(s, ta, rt, tr) for s in (
            R.query(dr, m, trext, 'ALL', 0, 'A', 4, 0x15), R.ack(0x5555),
            R.req_rn(0x5555, 0x5555), R.read(2, 0, 4, 0x5555, 0x5555))]
        want, width = {}, {}
        for w in words:
            bits = [R.reply_bits('rn16'), R.reply_bits('epc', 12),
                    R.reply_bits('handle')] + \
                [R.reply_bits('data', 2 * (w // chunks))] * chunks
            times = [t12 + cmds[min(s, 3)] + R.tag_frame(b, dr, tr, m, trext)
                     + 2e-5 for s, b in enumerate(bits)]
            want[w], width[w] = [], []
            for x in ber:
                p = [math.exp((b + over) * math.log1p(-x)) for b in bits]
                want[w].append(exact_mean(scenario, p, times) * 1e3)
                width[w].append(exact_sd(scenario, p, times) * 1e3 /
                                math.sqrt(trials))
        seen = set()
        for label, xs, ys in lines:
            nums = number_in(label)
            if len(nums) != 1 or nums[0] not in words:
                c.fail('a curve names its number of words', label=label)
            w = nums[0]
            exact = label.startswith('Аналитика')
            if not exact and not label.startswith('Симуляция'):
                c.fail('a curve of neither kind', label=label)
            seen.add((w, exact))
            c.eq(len(ys), points, 'points of a curve', label=label)
            for x, b in zip(xs, ber):
                c.close(x, float(b), 'a curve is drawn over the error rate',
                        label=label)
            compare(c, label, ys, want[w], None if exact else width[w])
        c.eq(seen, {(w, k) for w in words for k in (True, False)},
             'an analytic and a simulated curve for every number of words')
        for name, limit in (('analit_res_list', False),
                            ('mc_res_list', True), ('pp_res_list', True)):
            c.eq(len(ns[name]), 4, 'one series per number of words',
                 name=name)
            for w, ys in zip(words, ns[name]):
                c.eq(len(ys), points, 'points of a series', name=name)
                compare(c, name, ys, want[w], width[w] if limit else None)
        errs = list(map(float, ns['error_values']))
        c.eq(len(errs), points, 'one error per point')
        for e, a, s in zip(errs, ns['analit_res_list'][0],
                           ns['pp_res_list'][0]):
            c.close(e, abs(s - a) / s * 100, 'error in per cent', rel=1e-6,
                    abs_=1e-9)
        c.seen(repr(info))
    c.need('exact values', 20)
    c.need('estimates', 20)


def compare(c, what, ys, want, width):
    for j, (y, w) in enumerate(zip(ys, want)):
        if width is None:
            c.close(y, w, 'analytic reading time of the notebook', rel=1e-7,
                    curve=what, point=j)
            c.count('exact values')
        else:
            tol = 8 * width[j] + 1e-7 * w
            c.expect(abs(y - w) <= tol,
                     'simulated reading time of the notebook', curve=what,
                     point=j, got=y, want=w, tolerance=tol)
            c.count('estimates')
