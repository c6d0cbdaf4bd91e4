#!/opt/venv/bin/python
"""Run the check of one property.

usage: run.py CNN [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: all monitors observed events and none was violated.
Exit 1: violation, reported on stdout.
Exit 2: error of the check, or a monitor that observed nothing.
"""
import argparse
import concurrent.futures
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CYVERIF_REPO', '/repo')
WORKERS = 7


def environment(args):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', MPLBACKEND='Agg',
        PYTHONHASHSEED=env.get('PYTHONHASHSEED', '0'),
        PYTHONPATH=HERE, PYTHONWARNINGS='ignore', TF_CPP_MIN_LOG_LEVEL='3',
        OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2',
        XLA_FLAGS='--xla_cpu_multi_thread_eigen=false '
                  'intra_op_parallelism_threads=2')
    env.pop('JAX_ENABLE_X64', None)
    return env


def run_part(prop, part, tier, seed, replay, out):
    """Executed in a child process: run one workload function."""
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings('ignore')
    from cyverif import core
    mod = importlib.import_module(f'checks.{prop.lower()}')
    fn = mod.WORKLOADS[part]
    if getattr(fn, 'x64', True):
        import jax
        jax.config.update('jax_enable_x64', True)
    import cyjax
    if not os.path.realpath(cyjax.__file__).startswith(os.path.realpath(REPO) + '/'):
        raise SystemExit(f'cyjax imported from {cyjax.__file__}')
    m = core.Monitor(prop, tier, seed, part, replay,
                     budget=150. if tier == 'quick' else 600.)
    res = {'status': 'ok'}
    try:
        fn(m)
    except Exception as e:
        text = traceback.format_exc(limit=-12)
        if core.classify(e, os.path.realpath(REPO) + '/'):
            msg = str(e) if isinstance(e, core.Violation) else \
                f'[exception] {type(e).__name__}: {e} [case {m.case}: {m.info}]'
            res = {'status': 'violation', 'message': msg, 'trace': text,
                   'monitor': getattr(e, 'monitor', 'exception'),
                   'case': m.case, 'part': part}
        else:
            res = {'status': 'error', 'message': f'{type(e).__name__}: {e}',
                   'trace': text, 'case': m.case, 'part': part}
    res['report'] = m.report()
    with open(out, 'w') as f:
        json.dump(res, f)


def known_findings(prop):
    """Entries 'known: property=.. key=.. | text' of known-findings.txt."""
    entries = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f'known: property={prop} '):
                key, _, text = line.split(' key=', 1)[1].partition(' | ')
                entries.append((key.strip(), text.strip()))
    return entries


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--part')
    ap.add_argument('--out')
    ap.add_argument('--verbose', '-v', action='store_true')
    args = ap.parse_args()
    prop, tier, seed = args.prop, args.tier, args.seed

    replay = None
    if args.replay:
        rec = json.load(open(args.replay))
        tier, seed = rec['tier'], rec['seed']
        replay = tuple(rec['case']) if rec.get('case') else None
    if args.out:
        run_part(prop, args.part, tier, seed, replay, args.out)
        return 0

    t0 = time.time()
    sys.path.insert(0, HERE)
    mod = importlib.import_module(f'checks.{prop.lower()}')
    parts = list(mod.WORKLOADS)
    if args.replay:
        parts = [rec['part']]
    elif args.part:
        parts = [args.part]
    limit = 800 if tier == 'quick' else 3400
    scratch = tempfile.mkdtemp(prefix=f'cyverif-{prop}-')
    failfast, stop, running = 'CYVERIF_FAILFAST' in os.environ, threading.Event(), []

    def launch(part):
        out = os.path.join(scratch, f'{part}.json')
        cmd = [sys.executable, os.path.join(HERE, 'run.py'), prop, '--part', part,
               '--tier', tier, '--seed', str(seed), '--out', out]
        if args.replay:
            cmd += ['--replay', os.path.abspath(args.replay)]
        env = environment(args)
        env['CYVERIF_SCRATCH'] = scratch
        if stop.is_set():
            return {'status': 'skipped'}
        p = subprocess.Popen(cmd, env=env, cwd=scratch, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, text=True)
        running.append(p)
        try:
            err = p.communicate(timeout=limit)[1]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return {'status': 'error', 'message': f'part {part} timed out'}
        try:
            res = json.load(open(out))
        except Exception:
            if stop.is_set():
                return {'status': 'skipped'}
            return {'status': 'error', 'message': f'part {part} ended with code '
                    f'{p.returncode}: {err[-3000:]}'}
        if failfast and res['status'] == 'violation':
            stop.set()
            for q in running:
                q.kill()
        return res

    try:
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            results = dict(zip(parts, ex.map(launch, parts)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    monitors, seen, events, cases, samples = {}, set(), 0, 0, []
    for part, r in results.items():
        rep = r.get('report')
        if not rep:
            continue
        events += rep['events']
        cases += rep['cases']
        seen.update(rep['seen'])
        samples += rep['samples']
        for k, (a, b, c) in rep['monitors'].items():
            o = monitors.setdefault(k, [0, 0, 0.])
            monitors[k] = [o[0] + a, o[1] + b, max(o[2], c)]
        if args.verbose:
            print(f'# part {part}: {rep["cases"]} cases, {rep["events"]} events, '
                  f'{rep["wall_s"]:.1f} s')

    known = known_findings(prop)
    violations, errors, suppressed = [], [], []
    for part, r in results.items():
        if r['status'] == 'violation':
            hit = [t for k, t in known if r['message'].startswith(f'[{k}]')]
            (suppressed if hit else violations).append((r, hit))
        elif r['status'] == 'error':
            errors.append(r)

    wall = time.time() - t0
    rule = getattr(mod, 'RULE', '') or mod.__doc__.strip().splitlines()[0]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': events,
            'distinct_nontrivial': len(seen),
            'rule': rule + ' Counted are values observed in executions and judged by a '
                    'monitor; distinct and non-trivial are those whose monitor and '
                    'expected value differ from all others and are not all zero.',
            'samples': samples[:30],
            'cases': cases,
            'monitors': {k: {'events': a, 'distinct': b, 'max_error_over_tolerance': round(c, 6)}
                         for k, (a, b, c) in sorted(monitors.items())},
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': len(violations), 'wall_s': round(wall, 2)}
    if not args.replay and not args.part:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(evidence, f, indent=1)

    print(f'{prop} {tier} seed={seed}: {cases} cases, {events} observed values, '
          f'{len(seen)} distinct, {len(monitors)} monitors, {wall:.1f} s')
    if args.verbose:
        for k, (a, b, c) in sorted(monitors.items()):
            print(f'#   {k}: events {a}, distinct {b}, error/tolerance {c:.3g}')
    for r, hit in suppressed:
        print(f'KNOWN-FINDING: property={prop} {hit[0]}')
    if violations:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        for n, (r, _) in enumerate(violations):
            path = os.path.join('evidence', 'replay', f'{prop}-{n}.json')
            with open(os.path.join(HERE, path), 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'seed': seed,
                           'part': r['part'], 'case': r['case'],
                           'message': r['message'], 'trace': r['trace']}, f, indent=1)
            print(f'VIOLATION property={prop} replay={path}')
            print('  ' + r['message'][:1500])
        return 1
    if errors:
        for r in errors:
            print('ERROR', r['message'])
            print(r.get('trace', ''))
        return 2
    if not args.replay and not args.part:
        missing = [k for k in mod.REQUIRED if k not in monitors]
        if missing or not events:
            print(f'INCONCLUSIVE: monitors without observations: {missing}')
            return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
