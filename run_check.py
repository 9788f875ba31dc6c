#!/usr/bin/env python3
"""run_check.py ID [--worker K --out FILE] -- run one check (see DESIGN.md)."""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
THOROUGH_WORKERS = 8
THOROUGH_SCALE = float(os.environ.get('VERIF_SCALE', '6'))
WATCHDOG_S = {'quick': 840, 'thorough': 7200}
STALL_S = {'quick': 150, 'thorough': 300}
MEMORY_GB = {'quick': 10, 'thorough': 3.5}

MODULES = {
    'K': 'kernel', 'L': 'logger', 'P': 'pingpong', 'C': 'cli', 'T': 'tagtime',
    'E': 'epc', 'M': 'channel', 'G': 'tag', 'R': 'reader', 'S': 'rfid',
    'C04': 'settings', 'R07': 'more', 'S10': 'more', 'L04': 'more',
    'C05': 'experiments', 'C06': 'experiments', 'T06': 'experiments',
}


def reexec():
    env = dict(os.environ)
    want = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
            'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
            'OMP_NUM_THREADS': '1'}
    if all(env.get(k) == v for k, v in want.items()) and \
            os.path.realpath(sys.prefix) == os.path.realpath('/opt/venv'):
        return
    if env.get('VERIF_REEXEC'):
        return
    env.update(want)
    env['VERIF_REEXEC'] = '1'
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)


def run_one(pid, tier, seed, scale, worker):
    import importlib
    from vlib import core
    c = core.Ctx(pid, tier, seed, scale, worker)
    rule = ''
    try:
        core.setup_import()
        importlib.import_module('checks.' + MODULES.get(
            pid, MODULES[pid[0]]))
        fn, rule = core.REGISTRY[pid]
    except BaseException as e:
        import traceback
        # an error inside the code under test while it is imported is its own
        own = core.innermost(e) == 'repo' and not isinstance(
            e, core.Inconclusive)
        verdict = 'violated' if own else 'inconclusive'
        msg = f'cannot load: {e!r}'
        details = {'traceback': traceback.format_exc().splitlines()}
    else:
        if core.WATCH is not None:
            core.WATCH.ctx = c
        verdict, msg, details = core.outcome_of(fn, c)
        if core.WATCH is not None:
            core.WATCH.stop()
            if os.environ.get('VERIF_LONGEST'):
                sys.stderr.write(f'LONGEST {core.WATCH.longest:.1f}\n')
    return {
        'verdict': verdict, 'msg': msg, 'details': core.jsonable(details),
        'evaluations': c.evaluations, 'sigs': sorted(c.sigs),
        'counters': {k: int(v) for k, v in c.counters.items()},
        'samples': core.jsonable(c.samples or c.cases), 'rule': rule,
        'known': sorted(c.known_hit), 'worker': worker,
    }


def watchdog(tier):
    from vlib import core
    core.limit_memory(MEMORY_GB[tier])
    core.WATCH = core.Watch(WATCHDOG_S[tier], STALL_S[tier])
    core.WATCH.start()


def quiet():
    """No alarm may come when the interpreter is on its way out."""
    from vlib import core
    if core.WATCH is not None:
        core.WATCH.stop()


def main():
    reexec()
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.path.insert(0, HERE)
    sys.stdout.reconfigure(errors='backslashreplace')
    if '--replay' in args:
        rep = json.load(open(args[args.index('--replay') + 1]))
        pid, tier, seed = rep['property'], rep['tier'], rep['seed']
        res = run_one(pid, tier, seed, rep['scale'], rep['worker'])
        print(json.dumps({k: res[k] for k in ('verdict', 'msg', 'details')},
                         indent=1, ensure_ascii=False))
        return 1 if res['verdict'] == 'violated' else 0
    if '--worker' in args:
        watchdog(tier)
        w = int(args[args.index('--worker') + 1])
        out = args[args.index('--out') + 1]
        res = run_one(pid, tier, seed, THOROUGH_SCALE, w)
        quiet()
        with open(out, 'w') as f:
            json.dump(res, f)
        return 0

    t0 = time.time()
    watchdog(tier)
    results, errors = [], []
    if tier == 'quick':
        scale = 1.0
        results.append(run_one(pid, tier, seed, scale, 0))
    else:
        scale = THOROUGH_SCALE
        with tempfile.TemporaryDirectory(prefix='verif-') as d:
            procs = []
            for w in range(THOROUGH_WORKERS):
                out = os.path.join(d, f'{w}.json')
                procs.append((w, out, subprocess.Popen(
                    [sys.executable, os.path.abspath(__file__), pid,
                     '--worker', str(w), '--out', out],
                    stdout=subprocess.DEVNULL)))
            for w, out, p in procs:
                rc = p.wait()
                if rc == 0 and os.path.exists(out):
                    results.append(json.load(open(out)))
                else:
                    errors.append(f'worker {w} ended with {rc}')
    quiet()
    sigs, counters, samples, known = set(), {}, [], set()
    for r in results:
        sigs.update(r['sigs'])
        known.update(r['known'])
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        samples.extend(r['samples'][:4])
    violated = [r for r in results if r['verdict'] == 'violated']
    inconcl = [r for r in results if r['verdict'] == 'inconclusive']
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(sigs),
            'rule': results[0]['rule'] if results else '',
            'samples': samples[:6] or ['none recorded'],
            'observed': counters,
        },
        'assumptions': ['held on the executions produced by this run only'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(violated),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w',
              encoding='utf-8', errors='backslashreplace') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False, default=str)
        f.write('\n')
    if violated:
        r = violated[0]
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', pid + '.json')
        with open(path, 'w', encoding='utf-8',
                  errors='backslashreplace') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed,
                       'scale': scale, 'worker': r['worker'],
                       'msg': r['msg'], 'details': r['details']}, f,
                      indent=1, ensure_ascii=False)
        print(f'{pid}: {r["msg"]}')
        print(json.dumps(r['details'], ensure_ascii=False)[:1500])
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if inconcl or errors or not results:
        for r in inconcl:
            print(f'INCONCLUSIVE {pid}: {r["msg"]}')
            for line in r['details'].get('traceback', [])[-12:]:
                print('   ' + line)
        for e in errors:
            print('ERROR: ' + e)
        return 2
    from vlib import core
    listed = core.load_known(pid)
    for k in sorted(known):
        print(f'KNOWN-FINDING: property={pid} {listed[k]}')
    print(f'OK {pid}: {evidence["coverage"]["evaluations"]} cases, '
          f'{len(sigs)} distinct, {evidence["wall_s"]} s, '
          f'{json.dumps(counters)}')
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
