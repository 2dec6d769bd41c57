"""Batch runner: seeds -> simulated runs -> verdict, replay file and evidence.

    python -m dst.run P01 [--tier quick|thorough] [--seed N] [--runs N]
    python -m dst.run P01 --replay FILE
    python -m dst.run P01 --digest N        (determinism: print trace digests)
"""
import argparse
import collections
import contextlib
import faulthandler
import importlib
import io
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from dst import env
from dst.core import Ctx, SimCrash, Violation, digest, h64, origin

import numpy as np
import torch

_wall = time.time
RUN_LIMIT_S = 240


class _Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise _Hang()


# =============================================================================
def raised_by_repo(exc):
    """Whether the innermost frame outside libraries is the repository's."""
    last, tb = '', exc.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if '/hookeai/' in name or name.startswith(env.VERIF):
            last = name
        tb = tb.tb_next
    return '/hookeai/' in last


def reset(seed):
    """Process-wide state every run starts from."""
    torch.set_default_dtype(torch.float32)
    torch.manual_seed(seed % (1 << 31))
    np.random.seed(seed % (1 << 31))
    random.seed(seed)


def execute(prop, scenario):
    """Run one scenario in a scratch directory of its own."""
    scratch = tempfile.mkdtemp(prefix='dst_')
    reset(scenario['seed'])
    ctx = Ctx(scenario, scratch)
    cwd = os.getcwd()
    out = {'seed': scenario['seed']}
    sink = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_LIMIT_S)
    try:
        with contextlib.redirect_stdout(sink), \
                contextlib.redirect_stderr(sink):
            prop.run(ctx)
    except Violation as exc:
        out['violation'] = {'class': exc.cls, 'msg': exc.msg}
    except _Hang:
        out['violation'] = {'class': 'hang', 'msg':
                            f'run did not finish in {RUN_LIMIT_S} s'}
    except SimCrash:
        out['harness_error'] = 'escaped SimCrash\n' + traceback.format_exc()
    except Exception as exc:
        if raised_by_repo(exc):
            out['violation'] = {
                'class': 'unexpected-exception', 'msg':
                f'{type(exc).__name__}: {str(exc)[:300]} (at {origin(exc)})'}
        else:
            out['harness_error'] = traceback.format_exc()
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    out.update(ctx.result())
    if 'violation' in out or 'harness_error' in out:
        out['trace'] = [list(map(str, t)) for t in ctx.trace[-400:]]
    return out


def _worker(prop_name, tier, base, indices, queue, deadline):
    faulthandler.enable()
    prop = importlib.import_module(f'dst.props.{prop_name.lower()}')
    for i in indices:
        if _wall() > deadline:
            break
        seed = h64(base, prop_name, i) % (1 << 53)
        try:
            scenario = prop.gen(seed, tier)
            scenario['seed'] = seed
            out = execute(prop, scenario)
            if 'violation' in out or i < 2:
                out['scenario'] = scenario
        except Exception:
            out = {'seed': seed, 'harness_error': traceback.format_exc()}
        out['index'] = i
        queue.put(out)
        if 'violation' in out:
            break
    queue.put(None)


def batch(prop_name, tier, base, runs, workers, wall):
    deadline = _wall() + wall
    mp = multiprocessing.get_context('fork')
    queue = mp.Queue()
    procs = []
    for w in range(workers):
        p = mp.Process(target=_worker, args=(
            prop_name, tier, base, range(w, runs, workers), queue, deadline))
        p.start()
        procs.append(p)
    results, done = [], 0
    while done < workers:
        try:
            item = queue.get(timeout=5)
        except Exception:
            if all(not p.is_alive() for p in procs) and queue.empty():
                break
            continue
        if item is None:
            done += 1
        else:
            results.append(item)
    for p in procs:
        p.join(10)
        if p.is_alive():
            p.terminate()
    if done < workers:
        results.append({'index': -1, 'seed': -1, 'harness_error':
                        f'{workers - done} worker(s) died'})
    return sorted(results, key=lambda r: r['index'])


# =============================================================================
def _isolated(prop, scenario):
    """Execute a scenario in a forked child (fresh module state)."""
    mp = multiprocessing.get_context('fork')
    parent, child = mp.Pipe(False)

    def main():
        child.send(execute(prop, scenario))
        child.close()
    p = mp.Process(target=main)
    p.start()
    out = parent.recv() if parent.poll(RUN_LIMIT_S + 60) else {}
    p.join(5)
    if p.is_alive():
        p.kill()
    return out


def minimise(prop, scenario, cls, wall=40.0, attempts=300):
    """Greedy reduction that keeps the violation class."""
    end = _wall() + wall
    tried = 0

    def fails(cand):
        nonlocal tried
        tried += 1
        out = _isolated(prop, cand)
        return out.get('violation', {}).get('class') == cls

    best = scenario
    progress = True
    while progress and _wall() < end and tried < attempts:
        progress = False
        for cand in candidates(prop, best):
            if _wall() > end or tried >= attempts:
                break
            if fails(cand):
                best, progress = cand, True
                break
    return best, tried


def candidates(prop, scn):
    """Smaller scenarios: fewer list items, then property specific ones."""
    for field in getattr(prop, 'SHRINK_LISTS', ('ops', 'faults')):
        items = scn.get(field)
        if not isinstance(items, list):
            continue
        n = len(items)
        size = n//2
        while size >= 1:
            for start in range(0, n, size):
                cand = json.loads(json.dumps(scn))
                del cand[field][start:start + size]
                yield cand
            size //= 2
    if hasattr(prop, 'shrink'):
        yield from prop.shrink(json.loads(json.dumps(scn)))


# =============================================================================
def load_known(prop_name):
    path = os.path.join(env.VERIF, 'known_findings.jsonl')
    known = []
    if os.path.isfile(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                item = json.loads(line)
                if item.get('property') == prop_name:
                    known.append(item)
    return [k for k in known if k.get('status') == 'known']


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--wall', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--digest', type=int)
    ap.add_argument('--keep-going', action='store_true')
    args = ap.parse_args(argv)
    name = args.property
    prop = importlib.import_module(f'dst.props.{name.lower()}')

    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        out = execute(prop, rec['scenario'])
        print(json.dumps({k: v for k, v in out.items() if k != 'states'},
                         indent=1, default=str))
        if 'violation' in out:
            same = (out['violation'] == rec['violation']
                    and out['trace_digest'] == rec['trace_digest'])
            print(f'reproduced exactly: {same}')
            print(f'VIOLATION property={name} replay={args.replay}')
            return 1
        return 2 if 'harness_error' in out else 0

    if args.digest:
        for i in range(args.digest):
            seed = h64(args.seed, name, i) % (1 << 53)
            scenario = prop.gen(seed, args.tier)
            scenario['seed'] = seed
            out = execute(prop, scenario)
            print(i, digest(scenario), out['trace_digest'], out['steps'],
                  out.get('violation', {}).get('class'),
                  'HARNESS' if 'harness_error' in out else '')
        return 0

    start = _wall()
    runs = args.runs or prop.RUNS[args.tier]
    wall = args.wall or (420.0 if args.tier == 'quick' else 6*3600.0)
    if hasattr(prop, 'setup'):
        prop.setup()
    print(f'{name}: tier={args.tier} VERIF_SEED={args.seed} runs={runs}')
    sys.stdout.flush()
    results = batch(name, args.tier, args.seed, runs, args.workers, wall)
    violations = [r for r in results if 'violation' in r]
    harness = [r for r in results if 'harness_error' in r]
    known = load_known(name)
    fresh = violations
    for k in known:
        print(f'KNOWN-FINDING: property={name} {k["what"]}')
    code = 0
    replay_path = None
    if fresh:
        code = 1
        rec = fresh[0]
        cls = rec['violation']['class']
        small, tried = minimise(prop, rec['scenario'], cls)
        out = _isolated(prop, small)
        if out.get('violation', {}).get('class') != cls:
            small, out = rec['scenario'], rec
        replay_dir = os.path.join(env.VERIF, 'replays')
        os.makedirs(replay_dir, exist_ok=True)
        replay_path = os.path.join(
            replay_dir, f'{name}-{rec["seed"]}.json')
        with open(replay_path, 'w') as f:
            json.dump({'property': name, 'seed': rec['seed'],
                       'base_seed': args.seed, 'scenario': small,
                       'violation': out['violation'],
                       'trace_digest': out['trace_digest'],
                       'trace': out.get('trace'),
                       'minimise_attempts': tried}, f, indent=1, default=str)
        classes = collections.Counter(r['violation']['class'] for r in fresh)
        print(f'violations by class: {dict(classes)}')
        print(f'first: seed={rec["seed"]} {out["violation"]["class"]}: '
              f'{out["violation"]["msg"]}')
        print(f'VIOLATION property={name} replay={replay_path}')
    elif harness:
        code = 2
        print(harness[0]['harness_error'], file=sys.stderr)
        print(f'harness error in {len(harness)} run(s)', file=sys.stderr)
    write_evidence(prop, name, args, results, len(fresh), _wall() - start,
                   replay_path)
    n = len([r for r in results if 'harness_error' not in r])
    print(f'{name}: {n} simulated runs, {len(fresh)} violations, '
          f'{_wall() - start:.1f} s')
    return code


def write_evidence(prop, name, args, results, violations, wall, replay):
    faults, probes = collections.Counter(), collections.Counter()
    states, digests = set(), set()
    steps, sim_time = 0, 0.0
    for r in results:
        faults.update(r.get('faults', {}))
        probes.update(r.get('probes', {}))
        states.update(r.get('states', []))
        steps += r.get('steps', 0)
        sim_time += r.get('sim_time', 0.0)
        if r.get('nontrivial'):
            digests.add(r['trace_digest'])
    runs = len([r for r in results if 'trace_digest' in r])
    samples = [r['scenario'] for r in results if 'scenario' in r][:2]
    ev = {'property': name, 'tier': args.tier, 'seed': args.seed,
          'level': getattr(prop, 'LEVEL', 'exploration'),
          'coverage': {
              'evaluations': runs, 'distinct_nontrivial': len(digests),
              'rule': prop.RULE, 'samples': samples,
              'simulated_runs_per_hour': round(runs/max(wall, 1e-9)*3600),
              'simulated_time_s': round(sim_time, 3),
              'simulated_steps': steps,
              'faults_injected': dict(sorted(faults.items())),
              'probes_hit': dict(sorted(probes.items())),
              'probes_never_hit': sorted(
                  set(getattr(prop, 'PROBES', ())) - set(probes)),
              'distinct_states': len(states),
              'state_measure': getattr(prop, 'STATE_MEASURE', 'not counted'),
              'real_components': getattr(prop, 'REAL', []),
              'stubbed_components': getattr(prop, 'STUB', []),
              'replay': replay},
          'assumptions': getattr(prop, 'ASSUMPTIONS', []),
          'wall_s': round(wall, 2), 'violations': violations}
    path = os.path.join(env.VERIF, 'evidence', f'{name}.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
