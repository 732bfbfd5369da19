"""Command line of the simulator.

    main.py C01 [--tier quick|thorough] [--runs N] [--jobs N]
    main.py C01 --replay FILE
    main.py C01 --digests N        (digest of every run, for determinism proofs)

Exit status: 0 the property held in every simulated run, 1 it was violated,
2 the simulator failed."""
import argparse
import gc
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def reexec():
    want = {'PYTHONHASHSEED': os.environ.get('DST_HASHSEED', '0'),
            'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
            'MKL_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
            'PYTHONUNBUFFERED': '1', 'TZ': 'SIM-05:30', 'LC_ALL': 'C.UTF-8'}
    if any(os.environ.get(k) != v for k, v in want.items()):
        env = dict(os.environ)
        env.update(want)
        env.pop('PYTHONPATH', None)
        os.execve(sys.executable, [sys.executable, '-B'] + sys.argv, env)


def load(pid):
    sys.path.insert(0, VERIF)
    from dst import env
    env.setup()
    return importlib.import_module('dst.checks.' + pid.lower()), env


def rng_for(pid, seed, i):
    import random
    return random.Random('%d:%s:%d' % (seed, pid, i))


#: share of runs in which the parts of a line are points, too
FINE = float(os.environ.get('DST_FINE') or 0.2)

#: share of runs in unusual surroundings
AROUND = float(os.environ.get('DST_AROUND') or 0.15)


def make_plan(mod, seed, i, tier):
    plan = mod.gen(rng_for(mod.ID, seed, i), i, tier)
    rng = rng_for(mod.ID + ' fine', seed, i)
    if rng.random() < FINE:
        plan['fine'] = rng.choice([1, 2, 4])
    rng = rng_for(mod.ID + ' around', seed, i)
    if rng.random() < AROUND:
        from dst import around
        plan['around'] = around.gen(rng, mod.ID, plan)
    return json.loads(json.dumps(plan))


class Timeout(Exception):
    pass


def execute(mod, plan, limit=90):
    """One simulated run.  Returns (Run, violation or None)."""
    import signal
    import logging
    import numpy as np
    from dst import around, core, env, seams, simio

    def on_alarm(*a):
        raise Timeout()
    R = core.Run()
    v = None
    np.random.seed(12345)
    np.seterr(all='ignore')
    logging.getLogger('kamrecsys').setLevel(logging.ERROR)
    simio.disk = None
    simio.current = None
    # outside of processes with a clock of their own, too, time is simulated
    clock = seams.current_clock = seams.SimClock()
    env.fine = plan.get('fine', 0)
    # processor time, so that a busy machine makes no difference
    old = [signal.signal(n, on_alarm) for n in (signal.SIGPROF,
                                                signal.SIGALRM)]
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, 4 * limit)
    try:
        with around.Surroundings(plan.get('around') or {}):
            for k in sorted(plan.get('around') or {}):
                R.fault('surroundings:' + k)
            with env.world():
                mod.run(plan, R)
        R.sim_time += clock.mono / 1e6
    except core.Violation as e:
        v = e
    except Timeout:
        v = core.Violation('no-progress', 'the run did not finish in %d s '
                           'of processor time' % limit)
    except core.HarnessError:
        raise
    except Exception as e:
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        v = core.Violation('unexpected-error', tb[-2500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPROF, old[0])
        signal.signal(signal.SIGALRM, old[1])
        sys.settrace(None)
        simio.current = None
        seams.current_clock = None
        env.fine = 0
    return R, v


_mod = None
_seed = None
_tier = None


def _work(i):
    t0 = time.perf_counter()
    try:
        plan = make_plan(_mod, _seed, i, _tier)
        R, v = execute(_mod, plan)
    except Exception:
        return {'i': i, 'harness': traceback.format_exc()}
    if i % 16 == 0:
        gc.collect()
    return {'i': i, 'v': None if v is None else (v.kind, v.msg),
            'digest': R.digest(), 'shape': R.shape(), 'faults': dict(R.faults),
            'probes': dict(R.probes), 'sim': R.sim_time, 'steps': R.steps,
            'switches': R.switches, 'n_log': R.n_log,
            't': time.perf_counter() - t0}


_keep_going = False


def _work_chunk(idx):
    out = []
    for i in idx:
        out.append(_work(i))
        if out[-1].get('v') is not None and not _keep_going:
            break
    return out


def pool_map(indices, jobs, budget):
    """Results in order of index; stops after `budget` seconds."""
    import multiprocessing as mp
    t0 = time.perf_counter()
    gc.collect()
    gc.freeze()
    gc.disable()
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs) as pool:
        chunk = max(1, min(8, len(indices) // (jobs * 4) or 1))
        idx = list(indices)
        it = pool.imap(_work_chunk, [idx[k:k + chunk] for k in
                                     range(0, len(idx), chunk)])
        while True:
            try:
                rs = it.next(timeout=280)
            except StopIteration:
                break
            except mp.TimeoutError:
                yield {'i': -1, 'harness': 'a worker died or hung'}
                break
            for r in rs:
                yield r
            if time.perf_counter() - t0 > budget:
                break
        pool.terminate()


def candidates(mod, plan):
    from dst import core
    if plan.get('around'):
        yield {k: v for k, v in plan.items() if k != 'around'}
        for x in sorted(plan['around']):
            yield dict(plan, around={k: v for k, v in plan['around'].items()
                                     if k != x})
    if plan.get('fine'):
        yield {k: v for k, v in plan.items() if k != 'fine'}
        if plan['fine'] > 1:
            yield dict(plan, fine=1)
    if hasattr(mod, 'simplify'):
        for c in mod.simplify(plan):
            yield c
    for c in core.shrink_lists(plan, getattr(mod, 'SHRINK', [])):
        yield c


def minimise(mod, plan, kind, max_tries=300, max_s=60):
    t0 = time.perf_counter()
    tries = 0
    progress = True
    seen = set()
    while progress and tries < max_tries:
        progress = False
        for c in candidates(mod, plan):
            key = json.dumps(c, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            tries += 1
            if tries > max_tries or time.perf_counter() - t0 > max_s:
                return plan, tries
            try:
                _, v = execute(mod, c, 30)
            except Exception:
                continue
            if v is not None and v.kind == kind:
                plan = c
                progress = True
                break
    return plan, tries


def write_replay(mod, plan, seed, i, v, R, tries, orig):
    d = os.path.join(VERIF, 'out')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%s-run%s.json' % (mod.ID, seed, i))
    with open(path, 'w') as f:
        json.dump({
            'property': mod.ID, 'seed': seed, 'run': i,
            'violation': {'kind': v.kind, 'message': v.msg},
            'digest': R.digest(), 'events': R.tail,
            'faults_fired': dict(R.faults),
            'minimised_in': tries, 'plan': plan, 'original_plan': orig},
            f, indent=1, sort_keys=True)
    return path


def replay(mod, path):
    with open(path) as f:
        rec = json.load(f)
    plan = rec.get('plan')
    if plan is None:
        return report_import(mod)
    R, v = execute(mod, plan)
    if v is None:
        print('replay: the property holds in this run (digest %s)'
              % R.digest())
        return 0
    print('replay: %s: %s' % (v.kind, v.msg))
    same = (R.digest() == rec.get('digest') and
            v.kind == rec['violation']['kind'])
    print('replay: events identical to the recorded run: %s'
          % ('yes' if same else 'NO'))
    for line in R.tail[-12:]:
        print('  | ' + line)
    print('VIOLATION property=%s replay=%s' % (mod.ID, path))
    return 1


def report_import(mod):
    from dst import env
    if env.import_error:
        print(env.import_error)
        print('replay: the code under test cannot be imported')
        return 1
    print('replay: the code under test can be imported')
    return 0


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % pid):
                    out.append(line[len('finding: property=%s ' % pid):])
    except OSError:
        pass
    return out


def write_evidence(mod, tier, seed, cov, wall, nviol):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed,
          'level': 'exploration', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(wall, 2), 'violations': nviol}
    path = os.path.join(d, mod.ID + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(path + '.tmp', path)


def main():
    global _mod, _seed, _tier, _keep_going
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int, default=None)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--jobs', type=int,
                    default=max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--digests', type=int, default=None)
    ap.add_argument('--no-min', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    opt = ap.parse_args()
    reexec()
    _keep_going = opt.keep_going or bool(opt.digests)
    t0 = time.perf_counter()
    try:
        mod, env = load(opt.property)
    except Exception:
        traceback.print_exc()
        return 2
    pid = mod.ID
    if opt.replay:
        return replay(mod, opt.replay)
    if env.import_error:
        d = os.path.join(VERIF, 'out')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + '-import.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'plan': None,
                       'violation': {'kind': 'import',
                                     'message': env.import_error}}, f)
        print(env.import_error)
        write_evidence(mod, opt.tier, opt.seed, {
            'evaluations': 0, 'distinct_nontrivial': 0, 'rule': mod.RULE,
            'samples': [], 'explanation': 'the code cannot be imported'},
            time.perf_counter() - t0, 1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    _mod, _seed, _tier = mod, opt.seed, opt.tier
    n = opt.runs or mod.RUNS[opt.tier]
    budget = opt.budget or (420 if opt.tier == 'quick' else 3000)
    if opt.digests:
        for r in pool_map(range(opt.first, opt.first + opt.digests), opt.jobs,
                          1e9):
            if 'harness' in r:
                print(r['harness'])
                return 2
            print(r['i'], r['digest'], r['shape'], r['v'] and r['v'][0])
        return 0
    from collections import Counter
    faults, probes = Counter(), Counter()
    shapes, digests = set(), set()
    done = steps = switches = 0
    with_fault = 0
    sim = 0.0
    slow = 0.0
    nontrivial = 0
    bad = None
    n_bad = 0
    for r in pool_map(range(opt.first, opt.first + n), opt.jobs, budget):
        if 'harness' in r:
            print(r['harness'])
            return 2
        done += 1
        faults.update(r['faults'])
        probes.update(r['probes'])
        sim += r['sim']
        steps += r['steps']
        switches += r['switches']
        slow = max(slow, r['t'])
        if r['faults']:
            with_fault += 1
        digests.add(r['digest'])
        if r['faults'] or r['switches']:
            nontrivial += 1
            shapes.add(r['shape'])
        if r['v'] is not None:
            n_bad += 1
            if bad is None:
                bad = r
            if opt.keep_going:
                print('run %d: %s: %s' % (r['i'], r['v'][0],
                                          r['v'][1][-700:]))
                continue
            break
    wall = time.perf_counter() - t0
    samples = []
    for i in range(opt.first, opt.first + min(2, max(1, done))):
        samples.append({'run': i, 'plan': make_plan(mod, opt.seed, i,
                                                    opt.tier)})
    cov = {
        'evaluations': done,
        'distinct_nontrivial': len(shapes),
        'rule': mod.RULE,
        'samples': samples,
        'simulated_runs': done,
        'first_run_index': opt.first,
        'seeds_per_hour': int(done / max(wall, 1e-9) * 3600),
        'simulated_seconds': round(sim, 3),
        'scheduling_points_passed': steps,
        'context_switches_injected': switches,
        'faults_injected': dict(sorted(faults.items())),
        'runs_with_a_fault': with_fault,
        'runs_with_fault_or_switch': nontrivial,
        'distinct_interleavings': len(shapes),
        'interleaving_measure': getattr(
            mod, 'MEASURE', 'hash of the sequence of context switches, fired '
            'faults and I/O operations of a run with their code positions'),
        'distinct_histories': len(digests),
        'probes': dict(sorted(probes.items())),
        'components': getattr(mod, 'COMPONENTS', {}),
        'slowest_run_s': round(slow, 2),
        'python_hash_seed': os.environ.get('PYTHONHASHSEED')}
    for kf in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf))
    if bad is None:
        write_evidence(mod, opt.tier, opt.seed, cov, wall, 0)
        print('%s: held in %d simulated runs (%d with faults, %d context '
              'switches, %d distinct interleavings), %.1f s'
              % (pid, done, with_fault, switches, len(shapes), wall))
        return 0
    # reproduce, minimise, confirm
    i = bad['i']
    plan = make_plan(mod, opt.seed, i, opt.tier)
    orig = plan
    R, v = execute(mod, plan)
    tries = 0
    if v is None:
        print('%s: run %d failed once but not when repeated: %s'
              % (pid, i, bad['v']))
        # still report what was seen; the replay file holds the whole plan
        from dst import core
        v = core.Violation(*bad['v'])
    elif not opt.no_min:
        plan, tries = minimise(mod, plan, v.kind)
        R, v2 = execute(mod, plan)
        if v2 is not None:
            v = v2
        else:
            plan = orig
            R, v2 = execute(mod, plan)
            v = v2 or v
    path = write_replay(mod, plan, opt.seed, i, v, R, tries, orig)
    print('%s: run %d of seed %d: %s: %s' % (pid, i, opt.seed, v.kind, v.msg))
    for line in R.tail[-12:]:
        print('  | ' + line)
    wall = time.perf_counter() - t0
    cov['violating_runs_seen'] = n_bad
    write_evidence(mod, opt.tier, opt.seed, cov, wall, max(1, n_bad))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
