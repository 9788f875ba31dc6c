"""L01, L02: the model logger.

Random logger configurations and call sequences; what every sink (captured
stderr, log files) received is compared with an independent prediction.
"""
import contextlib
import io
import logging
import os
import re
import shutil
import tempfile
import threading

from vlib.core import check, quiet
import pysim.sim.simulator as S
from pysim.sim.logger import ModelLogger, ModelLoggerConfig, ColoredFormatter

ANSI = re.compile(r'\x1b\[[0-9;]*m')
METHODS = {'debug': 10, 'info': 20, 'warning': 30, 'error': 40,
           'critical': 50, 'exception': 40}
FIELDS = ('simTime', 'runId', 'levelno', 'levelname', 'name', 'filename',
          'funcName', 'message')
DEFAULT_RE = re.compile(
    r'^(?P<simTime>-?[\d.einfa+]+) \[(?P<levelname>[^\]]*?)\s*\] (?P<name>.*?) '
    r'\(R:(?P<runId>-?\d+)\) \((?P<filename>[^:()]*):(?P<funcName>[^()]*)\)'
    r' - (?P<message>.*)$', re.S)
_uniq = [0]


def uniq():
    _uniq[0] += 1
    return f'{os.getpid()}x{_uniq[0]}'


def make_fmt(style):
    if style == '{':
        body = '|'.join('{%s}' % f for f in FIELDS)
    elif style == '%':
        body = '|'.join('%%(%s)s' % f for f in FIELDS)
    else:
        body = '|'.join('${%s}' % f for f in FIELDS)
    return '\x02' + body + '\x03'


def parse_custom(text):
    """Records of a sink, in order."""
    text = ANSI.sub('', text)
    ret = []
    for m in re.finditer('\x02(.*?)\x03', text, re.S):
        parts = m.group(1).split('|', len(FIELDS) - 1)
        ret.append(dict(zip(FIELDS, parts)))
    return ret


class Case:
    """One configuration, the calls made under it and what came out."""

    def __init__(self, c, d):
        rng = c.rng
        self.c, self.d, self.rng = c, d, rng
        pick = lambda: rng.choice([10, 20, 30, 40, 50, 50, 40, 30, 5, 15, 25,
                                   35, 45, 60, 1, 0, rng.randint(0, 70)])
        self.style = rng.choice(['{', '{', '%', '$'])
        self.kw = dict(level=pick())
        self.default_fmt = rng.random() < 0.25
        if not self.default_fmt:
            self.kw.update(fmt=make_fmt(self.style), style=self.style)
        if rng.random() < 0.75:
            self.kw['use_console'] = True
            self.kw['colored_console'] = rng.random() < 0.5
            if rng.random() < 0.7:
                self.kw['console_level'] = pick()
            elif rng.random() < 0.5:
                self.kw['console_level'] = None
            if rng.random() < 0.3:
                self.kw['console_colors'] = {
                    lv: '\x1b[35m' for lv in
                    rng.sample([10, 20, 30, 40, 50, 15], rng.randint(0, 5))}
        self.fname = None
        if rng.random() < 0.75:
            self.fname = 'f%s.log' % uniq()
            self.kw['file_name'] = os.path.join(d, self.fname)
            if rng.random() < 0.7:
                self.kw['file_level'] = pick()
            elif rng.random() < 0.4:
                self.kw['file_level'] = rng.choice([0, None])
        elif rng.random() < 0.2:
            self.kw['file_level'] = pick()
        self.calls = []

    @property
    def console(self):
        """Console level, None if off."""
        if not self.kw.get('use_console'):
            return None
        return self.kw.get('console_level') or self.kw['level']

    @property
    def file(self):
        if not self.kw.get('file_name'):
            return None
        return self.kw.get('file_level') or self.kw['level']

    def config(self):
        return ModelLoggerConfig(**self.kw)

    def info(self):
        return {k: v for k, v in self.kw.items() if k != 'fmt'}

    def log_some(self, logger, n, get_time, run_id, name, extra=''):
        rng = self.rng
        for _ in range(n):
            mark = 'm' + uniq()
            kind = rng.randrange(6)
            if rng.random() < .004:     # a long record
                tail = rng.choice(['x', 'ab ', 'слово ']) * rng.choice(
                    [900, 7000, 23000]) + '.'
                msg, args = rng.choice([(mark + ' %s', (tail,)),
                                        (mark + ' ' + tail, ())])
                text = mark + ' ' + tail
                self.c.count('long records')
            elif kind == 0:
                msg, args, text = mark + ' plain', (), mark + ' plain'
            elif kind == 1:
                k, s = rng.randint(-9, 99), rng.choice(['a', 'b c', '%', '{}'])
                msg, args = mark + ' v=%d s=%s', (k, s)
                text = f'{mark} v={k} s={s}'
            elif kind == 2:
                msg, args, text = mark + ' {x} 100% $y', (), \
                    mark + ' {x} 100% $y'
            elif kind == 3:
                msg, args, text = mark + ' %(a)s', ({'a': 7},), mark + ' 7'
            elif kind == 4:
                msg, args, text = mark + ' two\nlines', (), \
                    mark + ' two\nlines'
            else:
                msg, args, text = mark + ' %5.2f|%r', (3.14159, 'q'), \
                    mark + "  3.14|'q'"
            meth = rng.choice(['debug', 'info', 'warning', 'error',
                               'critical', 'log', 'log', 'exception'])
            if meth == 'log':
                level = rng.choice([1, 5, 10, 15, 20, 25, 30, 35, 40, 45, 50,
                                    55, 60, self.kw['level'] or 1,
                                    self.console or 10, self.file or 10,
                                    max(1, (self.file or 10) - 1),
                                    (self.console or 10) + 1])
                func = place_log(logger, level, msg, args)
            elif meth == 'exception':
                level = 40
                try:
                    raise KeyError('inner')
                except KeyError:
                    func = place_call(logger, meth, msg, args)
            else:
                level = METHODS[meth]
                func = place_call(logger, meth, msg, args)
            self.calls.append(dict(mark=mark, text=text, level=level,
                                   time=get_time(), run_id=run_id(),
                                   name=name, func=func, method=meth))

    def want(self, sink_level):
        return [] if sink_level is None else \
            [x for x in self.calls if x['level'] >= sink_level]


def place_call(logger, meth, msg, args):
    getattr(logger, meth)(msg, *args)
    return 'place_call'


def place_log(logger, level, msg, args):
    logger.log(level, msg, *args)
    return 'place_log'


def marks(text, mine):
    """Marks of the recorded calls in the order they appear in a sink."""
    return [m for m in re.findall(r'm\d+x\d+(?=[ |])', text) if m in mine]


@contextlib.contextmanager
def captured():
    buf = io.StringIO()
    with contextlib.redirect_stderr(buf), \
            contextlib.redirect_stdout(buf):
        yield buf


def cleanup(*names):
    for n in names:
        lg = logging.getLogger(n)
        for h in list(lg.handlers):
            lg.removeHandler(h)
            h.close()


def read(path):
    if not os.path.exists(path):
        return None
    with open(path, encoding='utf8', errors='replace') as f:
        return f.read()


def drive(c, d, many=0):
    """One case: returns (case, console text, file text, meta)."""
    rng = c.rng
    case = Case(c, d)
    name = rng.choice(['', 'a.b.', 'model ', 'парк-', 'x_']) + 'L' + uniq()
    names = [name]
    c.begin({'config': case.info(), 'name': name})
    how = rng.choice(['direct', 'direct', 'sim', 'sim', 'force', 'twice',
                      'root', 'nested', 'other'])
    run_kw = {}
    if rng.random() < 0.6:
        run_kw['run_id'] = rng.choice([0, 1, 123, 999999, 10 ** 7,
                                       rng.randint(0, 10 ** 6)])
    now = [0.0]
    meta = dict(how=how, name=name, run_kw=run_kw)
    root = logging.getLogger()
    saved = list(root.handlers), root.level
    with captured() as buf:
        try:
            if how in ('direct', 'sim', 'twice') and rng.random() < .3:
                # an earlier run of a model of the same name
                prev = Case(c, d)
                old = ModelLogger(name)
                old.setup(prev.config())
                old.error('m0x0 before')
                meta['earlier_file'] = prev.kw.get('file_name')
                c.count('earlier runs')
            if how == 'root':
                root.addHandler(logging.StreamHandler())
                root.setLevel(1)
            if how == 'sim':
                ids = set()

                def handler(sim, k):
                    case.log_some(sim.logger, rng.randint(1, 3),
                                  lambda: sim.time, lambda: None, name)
                    for _ in range(rng.choice([0, 1, 1, 2])):
                        if k < 6:
                            sim.schedule(
                                rng.choice([0, 1, 0.1, 1e-7, 12345.678,
                                            rng.random() * 1e6]),
                                handler, (k + 1,))

                def init(sim):
                    case.log_some(sim.logger, 1, lambda: sim.time,
                                  lambda: None, name)
                    sim.schedule(rng.random() * 100, handler, (0,))
                    sim.schedule(3, handler, (3,))

                def fin(sim):
                    case.log_some(sim.logger, 1, lambda: sim.time,
                                  lambda: None, name)
                    if rng.random() < 0.5:
                        sim.stop('late')
                it = S.build_simulation(
                    name, init=init, fin=fin, logger_config=case.config(),
                    debug=rng.random() < 0.2)
                S.run_simulation(it)
            else:
                lg = ModelLogger(name, lambda: now[0], **run_kw)
                rid = run_kw.get('run_id')
                if rng.random() < 0.3:
                    rid = rng.choice([0, 5, 77])
                    lg.set_run_id(rid)
                if how == 'force':
                    first = Case(c, d)
                    lg.setup(first.config())
                    lg.info('m0x0 before')
                    for h in logging.getLogger(name).handlers:
                        h.flush()
                    lg.setup(case.config(), force_run=True)
                    meta['first_file'] = first.kw.get('file_name')
                else:
                    lg.setup(case.config())
                if how == 'twice':
                    second = Case(c, d)
                    lg.setup(second.config())
                    lg.setup()
                    meta['second_file'] = second.kw.get('file_name')
                others = []
                if how in ('nested', 'other'):
                    # a neighbour with its own sinks must see nothing
                    n2 = name.rsplit('.', 1)[0] if how == 'nested' and \
                        '.' in name else name + '.sub'
                    names.append(n2)
                    lg2 = ModelLogger(n2, lambda: -1.0)
                    c2 = Case(c, d)
                    c2.kw['use_console'] = False
                    c2.kw['file_name'] = os.path.join(d, 'o' + uniq())
                    c2.kw['level'] = c2.kw['file_level'] = 1
                    lg2.setup(c2.config())
                    meta['other_file'] = c2.kw['file_name']
                if rng.random() < 0.3:
                    lg.set_time_getter(lambda: now[0])
                for _ in range(many or rng.randint(1, 12)):
                    now[0] = rng.choice([now[0], now[0] + rng.random(),
                                         rng.random() * 10 ** rng.randint(
                                             -3, 9), 0.0])
                    case.log_some(lg, 1, lambda: now[0], lambda: rid, name)
                    c.count('direct records')
        finally:
            root.handlers[:], _ = saved[0], root.setLevel(saved[1])
            cleanup(*names)
    text = buf.getvalue()
    path = case.kw.get('file_name')
    ftext = read(path) if path else None
    meta['console_text'], meta['file_text'] = text, ftext
    c.seen((how, case.style, case.default_fmt, case.console, case.file,
            tuple(x['level'] for x in case.calls)))
    c.count('records', len(case.calls))
    c.count(f'mode {how}')
    return case, text, ftext, meta


def check_sink(c, case, sink, text, level):
    mine = {x['mark'] for x in case.calls}
    got = marks(text or '', mine)
    want = [x['mark'] for x in case.want(level)]
    if got != want:
        lv = {x['mark']: x['level'] for x in case.calls}
        c.fail(f'{sink}: records written differ from the admitted ones',
               sink_level=level,
               got=[(m, lv[m]) for m in got], want=[(m, lv[m]) for m in want],
               all=[(m, l) for m, l in lv.items()])
    c.count(f'{sink} admitted', len(want))
    c.count(f'{sink} suppressed', len(case.calls) - len(want))


@check('L01', 'random logger configurations (levels, sinks, styles, colours, '
              'forced and repeated setups, neighbouring loggers) with random '
              'calls at all levels; distinct = configuration and level '
              'sequence')
def l01(c):
    d = tempfile.mkdtemp(prefix='verif-log-')
    try:
        for i in range(c.n(3000)):
            # now and then one log of many records
            case, text, ftext, meta = drive(
                c, d, 9000 if i in (40, 41, 42, 43) else 0)
            if meta['how'] == 'root':
                # a handler of the application on the root logger must not
                # double the records on the console
                c.count('root handler')
            check_sink(c, case, 'console', text, case.console)
            if case.file is not None:
                c.expect(ftext is not None, 'log file was not created',
                         file=case.kw['file_name'])
            check_sink(c, case, 'file', ftext, case.file)
            for k in ('second_file', 'other_file', 'first_file',
                      'earlier_file'):
                p = meta.get(k)
                if p and p != case.kw.get('file_name'):
                    check_sink(c, case, k, read(p), None)
            if i < 3:
                c.sample({'config': case.info(),
                          'calls': [(x['method'], x['level'])
                                    for x in case.calls],
                          'console': text[:300]})
            if i % 50 == 0:
                for fn in os.listdir(d):
                    os.unlink(os.path.join(d, fn))
        c.need('console admitted', c.n(100))
        c.need('file admitted', c.n(100))
        c.need('console suppressed', c.n(100))
        c.need('file suppressed', c.n(100))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model_file_name(name, run_id, sep):
    """Reference of the naming rule."""
    if name[-4:].lower() == '.log':
        return name[:-4] + sep + str(run_id) + name[-4:]
    return name + sep + str(run_id)


def check_names(c, d):
    rng = c.rng
    for _ in range(c.n(1500)):
        stem = rng.choice(['a', 'run', 'x.y', 'log', 'my.log', 'a.LOG.b', 'b-1',
                           'with space', 'парк', 'x.', '.', '', 'log.txt', 'b',
                           'catalog', 'p_q'])
        ext = rng.choice(['.log', '.LOG', '.Log', '.lOg', '', '.txt', '.logs',
                          '.lo', 'log', '.log.log'])
        base = stem + ext
        if not base.strip() or base != base.strip():
            base = 'k' + ext
        sub = rng.choice(['', 'dir.log/', '/tmp/a.b/'])
        sep = rng.choice(['_', '-', '.', '', '__', ' '])
        rid = rng.choice([0, 1, 5, 42, 999999, rng.randint(0, 10 ** 9)])
        c.begin({'name': sub + base, 'sep': sep, 'run_id': rid})
        got = ModelLogger.build_file_name(sub + base, rid, sep)
        c.eq(got, model_file_name(sub + base, rid, sep), 'log file name')
        if sep == '_':
            c.eq(ModelLogger.build_file_name(sub + base, rid),
                 model_file_name(sub + base, rid, '_'), 'log file name')
        c.seen(('name', sub + base, sep))
        c.count('names')
    # real files
    for _ in range(c.n(200)):
        sub = tempfile.mkdtemp(dir=d)
        base = rng.choice(['a.log', 'b', 'c.LOG', 'd.txt', 'e.log.log', 'f.Log'])
        kw = dict(file_name=os.path.join(sub, base), level=10)
        no_id = rng.choice([True, False, False, None])
        if no_id is not None:
            kw['file_name_no_run_id'] = no_id
        sep = rng.choice([None, '-', '', '+'])
        if sep is not None:
            kw['file_name_sep'] = sep
        name = 'N' + uniq()
        rid = rng.choice([None, 0, 12, 345678])
        c.begin({'config': {k: v for k, v in kw.items()}, 'run_id': rid})
        mode = rng.choice(['direct', 'sim', 'set'])
        with captured():
            if mode == 'sim':
                S.run_simulation(S.build_simulation(
                    name, init=lambda sim: sim.logger.info('hello'),
                    logger_config=ModelLoggerConfig(**kw)))
                rid = None
            else:
                lg = ModelLogger(name, run_id=rid if mode == 'direct' else 99)
                if mode == 'set':
                    rid = 4711
                    lg.set_run_id(rid)
                lg.setup(ModelLoggerConfig(**kw))
                lg.info('hello')
            cleanup(name)
        files = os.listdir(sub)
        c.eq(len(files), 1, 'exactly one log file', files=files)
        text = read(os.path.join(sub, files[0]))
        m = re.search(r'\(R:(-?\d+)\)', text)
        c.expect(m is not None, 'record without run id', text=text)
        shown = int(m.group(1))
        if rid is not None:
            c.eq(shown, rid, 'run id of the record')
        want = base if no_id in (True, None) else \
            model_file_name(base, shown, '_' if sep is None else sep)
        c.eq(files[0], want, 'name of the log file')
        c.count('files')
        c.seen(('file', base, no_id, sep, mode))
        shutil.rmtree(sub)
    # every run starts its file anew
    p = os.path.join(d, 'again.log')
    for k in range(2):
        name = 'N' + uniq()
        with captured():
            lg = ModelLogger(name)
            lg.setup(ModelLoggerConfig(file_name=p, level=10))
            lg.info(f'm9x{k} again')
            cleanup(name)
    c.expect('m9x1' in read(p), 'record of the second run missing')
    c.expect('m9x0' not in read(p), 'log file holds records of another run')


@check('L02', 'random logger configurations, records parsed back field by '
              'field; log file names against the reference naming rule; '
              'distinct = (configuration, levels) or (name, separator)')
def l02(c):
    d = tempfile.mkdtemp(prefix='verif-log-')
    try:
        check_names(c, d)
        namesakes(c, d)
        for i in range(c.n(2500)):
            case, text, ftext, meta = drive(c, d)
            rids = set()
            for sink, t, level in (('console', text, case.console),
                                   ('file', ftext, case.file)):
                if level is None or t is None:
                    continue
                if meta['how'] == 'root':
                    continue
                recs = records(case, t)
                by = {}
                for r in recs:
                    m = re.match(r'm\d+x\d+', r['message'])
                    if m:
                        by[m.group(0)] = r
                for x in case.want(level):
                    r = by.get(x['mark'])
                    c.expect(r is not None, f'{sink}: record not found',
                             call=x, text=t[-500:])
                    field_check(c, case, sink, r, x, rids)
            c.expect(len(rids) <= 1, 'records of one run show several run ids',
                     ids=sorted(rids))
            # repeated setup changes nothing unless forced
            if meta['how'] == 'twice' and meta.get('second_file'):
                c.expect(not os.path.exists(meta['second_file']) or
                         meta['second_file'] == case.kw.get('file_name'),
                         'an ignored setup created a log file')
                c.count('ignored setup')
            if meta['how'] == 'twice' and case.file is not None:
                c.expect(ftext is not None and
                         marks(ftext, {x['mark'] for x in case.calls}) ==
                         [x['mark'] for x in case.want(case.file)],
                         'a repeated setup changed the sinks')
            if meta['how'] == 'force' and case.file is not None:
                c.expect(ftext is not None and
                         marks(ftext, {x['mark'] for x in case.calls}) ==
                         [x['mark'] for x in case.want(case.file)],
                         'a forced setup did not take effect')
                c.count('forced setup')
            if i < 3:
                c.sample({'config': case.info(), 'file': (ftext or '')[:300]})
            if i % 50 == 0:
                for fn in os.listdir(d):
                    os.unlink(os.path.join(d, fn))
        c.need('fields', c.n(200))
        c.need('files', c.n(30))
        c.need('forced setup', 1)
        c.need('ignored setup', 1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def namesakes(c, d):
    """Several simulations of one name alive at once - built before the
    first is run, run within a handler of another or in threads, or plain
    loggers used in turns - each with sinks of its own."""
    rng = c.rng
    for i in range(c.n(160)):
        name = 'S' + uniq()
        how = rng.choice(['built first', 'nested', 'threads', 'loggers'])
        cases = [Case(c, d) for _ in range(rng.choice([2, 2, 3, 4]))]
        for k, case in enumerate(cases):
            if k and rng.random() < .3:         # a silent neighbour
                case.kw = dict(level=50)
        c.begin({'configs': [x.info() for x in cases], 'how': how})
        errors = []

        def build(case, inner=None):
            def handler(sim, k):
                case.log_some(sim.logger, rng.randint(1, 3),
                              lambda: sim.time, lambda: None, name)
                if inner and k == 2:
                    S.run_simulation(build(inner[0], inner[1:]))
                case.log_some(sim.logger, 1, lambda: sim.time,
                              lambda: None, name)
                if k < 4:
                    sim.schedule(rng.random() * 9, handler, (k + 1,))
            return S.build_simulation(
                name, init=lambda sim: sim.schedule(0, handler, (0,)),
                fin=lambda sim: case.log_some(
                    sim.logger, 1, lambda: sim.time, lambda: None, name),
                logger_config=case.config())

        def run(it):
            try:
                S.run_simulation(it)
            except BaseException as e:
                errors.append(e)
        with captured() as buf:
            if how == 'nested':
                run(build(cases[0], cases[1:]))
            elif how == 'loggers':
                lgs = []
                for k, case in enumerate(cases):
                    lgs.append(ModelLogger(name, lambda k=k: 10.0 + k))
                    lgs[k].setup(case.config())
                for _ in range(12):
                    k = rng.randrange(len(cases))
                    cases[k].log_some(lgs[k], 1, lambda: 10.0 + k,
                                      lambda: None, name)
            else:
                its = [build(x) for x in cases]
                rng.shuffle(its)
                if how == 'threads':
                    ts = [threading.Thread(target=run, args=(it,))
                          for it in its]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join()
                else:
                    for it in its:
                        run(it)
            cleanup(name)
        for e in errors:
            raise e
        text = buf.getvalue()
        seen_ids = set()
        for k, case in enumerate(cases):
            info = dict(case=k, how=how)
            path = case.kw.get('file_name')
            ftext = read(path) if path else None
            mine = {x['mark'] for x in case.calls}
            all_ = {x['mark'] for y in cases for x in y.calls}
            for sink, t, level in (('console', text, case.console),
                                   ('file', ftext, case.file)):
                c.eq(marks(t or '', mine),
                     [x['mark'] for x in case.want(level)],
                     f'{sink}: records of one of several runs of one name',
                     **info)
            c.expect(set(marks(ftext or '', all_)) <= mine,
                     'log file holds records of another run', **info)
            rids = set()
            if case.file is not None:
                by = {}
                for r in records(case, ftext):
                    m = re.match(r'm\d+x\d+', r['message'])
                    if m:
                        by[m.group(0)] = r
                for x in case.want(case.file):
                    c.expect(x['mark'] in by, 'record not found', call=x,
                             **info)
                    field_check(c, case, 'file', by[x['mark']], x, rids)
            c.expect(len(rids) <= 1, 'records of one run show several run '
                     'ids', ids=sorted(rids))
            if rids & seen_ids:
                c.count('equal run ids')    # one in a million
            seen_ids |= rids
            if path and os.path.exists(path):
                os.unlink(path)
        c.count('namesakes', len(cases))
        c.seen(('namesakes', how, tuple((x.console, x.file) for x in cases)))
    c.expect(c.counters.get('equal run ids', 0) <= c.n(5),
             'runs of one name share their run identifiers')
    c.need('namesakes', 200)


def records(case, text):
    if not case.default_fmt:
        return parse_custom(text)
    ret = []
    plain = ANSI.sub('', text)
    # a record starts at a line with the default prefix
    starts = [m.start() for m in re.finditer(
        r'^-?[\d.einfa+]+ \[', plain, re.M)] + [len(plain)]
    for a, b in zip(starts, starts[1:]):
        m = DEFAULT_RE.match(plain[a:b].rstrip('\n'))
        if m:
            ret.append(m.groupdict())
    return ret


def field_check(c, case, sink, r, x, rids):
    msg = r['message']
    if x['method'] == 'exception' and case.default_fmt:
        msg = msg.split('\nTraceback')[0]
    c.eq(msg, x['text'], f'{sink}: message')
    c.eq(r['name'], x['name'], f'{sink}: model name')
    if not case.default_fmt:
        c.eq(r['levelno'], str(x['level']), f'{sink}: level')
        c.eq(float(r['simTime']), float(x['time']), f'{sink}: model time')
    else:
        c.close(float(r['simTime']), float(x['time']),
                f'{sink}: model time', rel=1e-9, abs_=6e-7)
    c.eq(r['levelname'].strip(), logging.getLevelName(x['level']),
         f'{sink}: level name')
    c.eq(r['funcName'], x['func'], f'{sink}: function of the call')
    c.eq(r['filename'], 'logger.py', f'{sink}: file of the call')
    if x['run_id'] is not None:
        c.eq(r['runId'], str(x['run_id']), f'{sink}: run id')
    else:
        c.expect(re.fullmatch(r'\d+', r['runId']), f'{sink}: run id missing')
    rids.add(r['runId'])
    c.count('fields')


# --------------------------------------------------------------------------
# L03: colours
# --------------------------------------------------------------------------
ESC = re.compile(r'(?:\x1b\[[0-9;]*m)*')
CODES = ['\x1b[35m', '\x1b[36m', '\x1b[1m\x1b[34m', '\x1b[7m', '\x1b[91m',
         '\x1b[38;5;200m']
STANDARD = (10, 20, 30, 40, 50)


class ColourCase(Case):
    def __init__(self, c, d):
        super().__init__(c, d)
        rng = c.rng
        self.default_fmt = False
        self.kw.update(fmt=make_fmt(self.style), style=self.style,
                       use_console=True, level=1, console_level=rng.choice(
                           [1, 1, 10, 20]))
        self.kw.pop('console_colors', None)
        self.kw.pop('colored_console', None)
        self.coloured = rng.choice([True, True, False, None])
        if self.coloured is not None:
            self.kw['colored_console'] = self.coloured
        self.colours = {}
        if rng.random() < .6:
            self.colours = {lv: rng.choice(CODES) for lv in rng.sample(
                [10, 20, 30, 40, 50, 15, 25, 60, 5], rng.randint(0, 7))}
            self.kw['console_colors'] = dict(self.colours)
        elif rng.random() < .3:
            self.kw['console_colors'] = None

    def colour(self, level):
        """None: no colour; '*': the default of the level."""
        if self.coloured is False:
            return None
        if level in self.colours:
            return self.colours[level]
        return '*' if level in STANDARD else None


def colour_spans(text):
    """(mark, level, sequences before, sequences after) of every record."""
    ret = []
    for m in re.finditer('((?:\x1b\\[[0-9;]*m)*)\x02(.*?)\x03'
                         '((?:\x1b\\[[0-9;]*m)*)', text, re.S):
        parts = m.group(2).split('|', len(FIELDS) - 1)
        f = dict(zip(FIELDS, parts))
        k = re.match(r'm\d+x\d+', f['message'])
        if k:
            ret.append((k.group(0), m.group(1), m.group(2), m.group(3)))
    return ret


@check('L03', 'random colour settings, styles and calls at standard and own '
              'levels; raw bytes of console and file parsed record by record; '
              'distinct = (settings, levels)')
def l03(c):
    d = tempfile.mkdtemp(prefix='verif-log-')
    rng = c.rng
    defaults = {}
    try:
        for i in range(c.n(1500)):
            case = ColourCase(c, d)
            name = 'L' + uniq()
            c.begin({'config': case.info()})
            with captured() as buf:
                lg = ModelLogger(name, lambda: 1.5, run_id=3)
                lg.setup(case.config())
                case.log_some(lg, rng.randint(1, 8), lambda: 1.5, lambda: 3,
                              name)
                cleanup(name)
            text = buf.getvalue()
            level = {x['mark']: x for x in case.calls}
            spans = colour_spans(text)
            c.eq([m for m, *_ in spans],
                 [x['mark'] for x in case.want(case.console)],
                 'records on the console', text=text)
            rest = text
            for mark, before, body, after in spans:
                lv = level[mark]['level']
                want = case.colour(lv)
                info = dict(level=lv, got=(before, after), want=want)
                c.expect('\x1b' not in body, 'a colour inside a record',
                         body=body)
                if want is None:
                    c.eq((before, after), ('', ''), 'colour of a record that '
                         'should be plain', **{k: info[k] for k in ['level']})
                    c.count('plain')
                else:
                    c.eq(after, '\x1b[0m', 'the colour is not reset after a '
                         'record', level=lv)
                    if want == '*':
                        c.expect(before, 'record without the colour of its '
                                 'level', **info)
                        c.eq(before, defaults.setdefault(lv, before),
                             'default colour of a level', level=lv)
                        c.count('default colour')
                    else:
                        c.eq(before, want, 'configured colour of a level',
                             level=lv)
                        c.count('own colour')
                        if lv not in STANDARD:
                            c.count('colour of an own level')
                rest = rest.replace(before + '\x02' + body + '\x03' + after,
                                    '', 1)
            c.expect('\x1b' not in rest, 'colours outside of records',
                     text=rest[-300:])
            if case.file is not None:
                ftext = read(case.kw['file_name'])
                c.expect('\x1b' not in ftext, 'colours in the log file',
                         text=ftext[:300])
                # the same record reads the same in both sinks
                both = {m: b for m, _, b, _ in colour_spans(ftext)}
                for m, _, b, _ in spans:
                    if m in both:
                        c.eq(b, both[m], 'text of a record on the console '
                             'and in the file')
                        c.count('compared with the file')
                os.unlink(case.kw['file_name'])
            c.seen((case.coloured, tuple(sorted(case.colours.items())),
                    case.style, tuple(x['level'] for x in case.calls)))
            if i < 3:
                c.sample({'config': case.info(), 'console': text[:300]})
        c.expect(len(set(defaults.values())) == len(defaults),
                 'two levels share a default colour', colours=defaults)
        for k in ('plain', 'default colour', 'own colour',
                  'compared with the file', 'colour of an own level'):
            c.need(k, c.n(15))
    finally:
        shutil.rmtree(d, ignore_errors=True)
