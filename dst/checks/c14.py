"""C14: one-fold runs merged in any order equal the full cross-validation."""
import json

import numpy as np

from .. import exps, gen as G, procs, simio
from ..core import Violation, check, dig

ID = 'C14'
RUNS = {'quick': 1200, 'thorough': 30000}
RULE = ('a random cross-validation, whose folds are run as separate one-fold '
        'processes in random order and overlap on one simulated disk, each '
        'attempt with a random crash, full disk, failed operation, '
        'interrupt or none, until it succeeds; the result files of all or '
        'some folds are then merged in random orders by processes that may '
        'be crashed and run again, and compared with one full run; '
        'non-trivial: a fault fired or a context switch happened')
SHRINK = [('switches',), ('merges',), ('order',), ('exp', 'rows')]
COMPONENTS = {'real': ['scripts/exp_recsys_sp.py', 'scripts/exp_recsys_if.py',
                       'scripts/exp_recsys_util.py',
                       'scripts/exp_recsys_fold_merge.py', 'kamrecsys',
                       'io stack of the interpreter', 'argparse', 'json',
                       'numpy', 'scipy.optimize', 'sklearn'],
              'simulated': ['disk', 'standard streams', 'processes',
                            'scheduling', 'clock', 'machines (processor '
                            'information)', 'crashes',
                            'asynchronous exceptions'],
              'stub': ['/bin/cat /proc/cpuinfo']}
ASSUMPTIONS = ['every user has two events or more',
               'a crash of a process keeps what it wrote; crashes of the '
               'operating system are not simulated']


def attempt(rng, script=True):
    a = {'io': exps.gen_io(rng, p=0.3)}
    if rng.random() < 0.8:
        k = rng.choice(['crash', 'crash', 'crash', 'enospc', 'eio',
                        'interrupt', 'memory'])
        a['fault'] = {'op': rng.choice([rng.randint(1, 6),
                                        rng.randint(1, 30)]), 'kind': k}
        if k in ('crash', 'enospc'):
            a['fault']['torn'] = round(rng.random(), 3)
        elif k == 'eio':
            a['fault']['lost'] = rng.choice([0, 1, 7, 100])
            a['fault']['errno'] = rng.choice(G.ERRNO)
    else:
        a['trip'] = [rng.choice([rng.randint(1, 200), rng.randint(1, 2500)]),
                     rng.choice(['crash', 'crash', 'interrupt', 'memory',
                                 'error'])]
    return a


def gen(rng, idx, tier):
    e = exps.gen_exp(rng, scheme='cv', max_users=4, max_events=16,
                     folds=rng.choice([1, 2, 2, 3, 3, 4, 5, 11, 12])
                     if rng.random() < 0.75 else None)
    if e['folds'] > 6:
        e['opts']['maxiter'] = rng.choice([1, 2])
    n = e['folds']
    order = list(range(n))
    rng.shuffle(order)
    fs = {}
    for f in range(n):
        fs[str(f)] = {
            'd': exps.gen_delivery(rng, 'cv'), 'start': rng.randrange(10 ** 6),
            'cpu': 'cpu %d' % rng.randrange(100),
            'attempts': [attempt(rng) for _ in range(
                rng.choice([0, 0, 0, 1, 1, 2]))]}
    merges = []
    for _ in range(rng.choice([1, 2])):
        k = n if rng.random() < 0.7 else rng.randint(1, n)
        ins = rng.sample(range(n), k)
        m = {'ins': ins, 'd': {'out': rng.choice(['opt', 'opt', 'stdout',
                                                  'optdash']),
                               'rel': rng.random() < 0.3,
                               'log': rng.choice(['-q', '--quiet',
                                                  '--verbose', None]),
                               'io': exps.gen_io(rng)},
             'attempts': [attempt(rng)
                          for _ in range(rng.choice([0, 0, 1]))]}
        merges.append(m)
    return {'xproc': rng.randint(1, 10 ** 6) if rng.random() < 0.08 else 0,
            'exp': e, 'order': order, 'f': fs, 'width': rng.choice(
        [1, 2, 2, 3, 4]), 'merges': merges, 'lines': rng.random() < 0.08,
        'early': rng.random() < 0.4, 'full': exps.gen_delivery(rng, 'cv'),
        'switches': G.switches(rng, rng.randint(3, 30), 1, 14)}


other = exps.other


def simplify(plan):
    for f, x in plan['f'].items():
        for a in range(len(x['attempts'])):
            q = json.loads(json.dumps(plan))
            del q['f'][f]['attempts'][a]
            yield q
        if x['d'].get('io') or x['d']['in'] != 'opt' or x['d']['out'] != 'opt':
            q = json.loads(json.dumps(plan))
            q['f'][f]['d'].update({'in': 'opt', 'out': 'opt', 'io': None,
                                   'rel': False})
            yield q
    if plan['width'] > 1:
        yield dict(plan, width=1)
    for i, m in enumerate(plan['merges']):
        for k, v in (('attempts', []),):
            if m[k]:
                q = json.loads(json.dumps(plan))
                q['merges'][i][k] = v
                yield q
        if m['d'].get('io'):
            q = json.loads(json.dumps(plan))
            q['merges'][i]['d']['io'] = None
            yield q
    for k in ('lines', 'early', 'xproc'):
        if plan[k]:
            yield dict(plan, **{k: 0})


def run(plan, R):
    e = plan['exp']
    ref = exps.Ref(e)
    disk = simio.disk = simio.Disk()
    names = exps.put_files(disk, e, 'data')
    before = disk.snapshot()
    # the full run
    d = plan['full']
    p = exps.process(R, 'full', e, d, names, '/sim/full.json')
    procs.run_procs(R, [p])
    if p.status != 0 and isinstance(p.error, ValueError) and \
            'in fit\n' in p.traceback and ref.binary:
        R.probe('training impossible')
        return
    exps.ended_well(p, 'the full cross-validation')
    full = exps.parse(p, d, '/sim/full.json', 'the full cross-validation')
    if plan.get('xproc'):
        exps.same_elsewhere(R, 'c14', plan['xproc'], e, full)
    # one process for each fold
    queue = []
    for f in plan['order']:
        x = plan['f'][str(f)]
        queue.append((f, x['attempts'] + [None]))
    running = []
    out = dict((f, '/sim/fold%d.json' % f) for f in plan['order'])
    done = {}
    rnd = si = 0
    while queue or running:
        while queue and len(running) < plan['width']:
            f, at = queue.pop(0)
            running.append([f, list(at)])
        ps, trips = [], {}
        for f, at in running:
            a = at[0]
            x = plan['f'][str(f)]
            dd = dict(x['d'], io=(a or {}).get('io') or x['d'].get('io'))
            if a and a.get('trip'):
                trips[len(ps)] = tuple(a['trip'])
            from .. import seams
            ps.append(exps.process(
                R, 'fold%d.%d' % (f, rnd), e, dd, names, out[f], fold=f,
                faults=[a['fault']] if a and a.get('fault') else [],
                cpuinfo=x['cpu'].encode(),
                clock=seams.SimClock(start=1.6e9 + x['start'])))
        sw = plan['switches'][si:si + 10] if len(ps) > 1 else []
        si += len(sw)
        procs.run_procs(R, ps, sw, trips=trips,
                        line_points=plan['lines'] or bool(trips))
        left = []
        for (f, at), p in zip(running, ps):
            a = at.pop(0)
            R.ev(p.name, p.status)
            x = plan['f'][str(f)]
            if p.status == 0:
                check(not p.faults_hit, 'failure-hidden', 'fold %d ended '
                      'successfully although an operation failed', f)
                if exps.to_stdout(x['d']):
                    disk.put(out[f], bytes(p.out_node))
                done[f] = one_fold(ref, p, x['d'], names, out[f], f)
                if rnd and a is None:
                    R.probe('fold after a disturbed attempt')
                if a is not None:
                    R.probe('fault did not fire')
            else:
                check(a is not None and (p.faults_hit or p.crashed or
                                         a.get('trip')),
                      'unexpected-error', 'fold %d ended with %r: %s', f,
                      p.status, p.traceback)
                if exps.to_stdout(x['d']):
                    disk.put(out[f], bytes(p.out_node))
                if plan['early']:
                    incomplete(R, plan, disk, out, done, f)
                left.append([f, at])
        running = left
        rnd += 1
    # merge
    for i, m in enumerate(plan['merges']):
        ins = [f for f in m['ins'] if f in out]
        if not ins:
            continue
        merge(R, ref, plan, disk, i, m, ins, out, done, full, names)
    exps.unmodified(disk, before, set(out.values()) | set(
        ['/sim/full.json'] + ['/sim/merged%d.json' % i
                              for i in range(len(plan['merges']))]),
        'a script')


def one_fold(ref, p, d, names, path, f):
    what = 'the run of fold %d' % f
    res = exps.parse(p, {'out': 'opt'}, path, what)
    exps.check_result(ref, res, d, names, path, folds=[f])
    return res


def incomplete(R, plan, disk, out, done, f):
    """Merging while a fold is not finished must fail."""
    b = disk.get(out[f])
    if b is not None:
        try:
            json.loads(b.decode('utf-8'))
            return      # everything had been written
        except ValueError:
            pass
    ins = sorted(done) + [f]
    if (f + len(done)) % 2:
        ins.reverse()
    q = exps.merge_process(R, 'early', [out[k] for k in ins],
                           '/sim/early.json', {'out': 'opt'})
    procs.run_procs(R, [q])
    check(q.status not in (0, None), 'incomplete-accepted', 'merging folds %r '
          'succeeded although the file of fold %d is incomplete', ins, f)
    disk.files.pop('/sim/early.json', None)
    R.probe('merge of an incomplete file refused')


def merge(R, ref, plan, disk, i, m, ins, out, done, full, names):
    path = '/sim/merged%d.json' % i
    files = [out[f] for f in ins]
    before = disk.snapshot()
    for a in m['attempts'] + [None]:
        d = dict(m['d'], io=(a or {}).get('io') or m['d'].get('io'))
        p = exps.merge_process(
            R, 'merge%d' % i, files, path, d,
            [a['fault']] if a and a.get('fault') else [])
        trips = {0: tuple(a['trip'])} if a and a.get('trip') else None
        procs.run_procs(R, [p], trips=trips, line_points=bool(trips))
        exps.unmodified(disk, before, [path], 'merging')
        R.ev(p.name, p.status)
        if p.status == 0:
            check(not p.faults_hit, 'failure-hidden', 'merging ended '
                  'successfully although an operation failed')
            res = exps.parse(p, d, path, 'merging')
            check_merged(R, ref, res, d, path, ins, done, full, names)
        else:
            check(a is not None and (p.faults_hit or p.crashed or
                                     a.get('trip')), 'unexpected-error',
                  'merging ended with %r: %s', p.status, p.traceback)


def check_merged(R, ref, res, d, path, ins, done, full, names):
    tag = 'folds merged in order %r: ' % (ins,)
    check(isinstance(res.get('environment'), dict), 'content',
          '%sno environment', tag)
    ef = res['environment'].get('environment_fold')
    check(isinstance(ef, dict) and sorted(ef) == sorted(map(str, ins)),
          'environment', '%senvironments of folds %r are kept', tag,
          sorted(ef) if isinstance(ef, dict) else ef)
    for f in ins:
        diff = exps.differences(ef[str(f)], done[f]['environment'])
        check(not diff, 'environment', '%senvironment of fold %d differs: %s',
              tag, f, '; '.join(diff))
    check(exps._same(res['condition'].get('merged'), True), 'settings',
          '%snot marked as merged', tag)
    exps.check_result(ref, res, d, names, path, folds=ins, merged=True)
    want = '<stdout>' if exps.to_stdout(d) else path.rsplit('/', 1)[1]
    check(want in str(res['condition'].get('out_file')), 'names',
          '%soutput file is recorded as %r', tag,
          res['condition'].get('out_file'))
    # the same as the full run, apart from folds left out
    a, b = exps.strip(res), exps.strip(full)
    keep = set(map(str, ins))
    for sec in ('training', 'test'):
        b[sec]['results'] = {k: v for k, v in b[sec]['results'].items()
                             if k in keep}
    for k, v in b['prediction'].items():
        if k == 'event_feature':
            for x in v:
                v[x] = {f: y for f, y in v[x].items() if f in keep}
        else:
            b['prediction'][k] = {f: y for f, y in v.items() if f in keep}
    a['condition'].pop('merged', None)
    for x in (a, b):
        x.pop('environment', None)
    diff = exps.differences(b, a)
    check(not diff, 'merge', '%sdiffers from the full cross-validation: %s',
          tag, '; '.join(diff))
    # the times of the folds are kept
    for f in ins:
        for sec in ('training', 'test'):
            x = res[sec]['results'][str(f)]
            y = done[f][sec]['results'][str(f)]
            for k in exps.TIMES:
                check(x.get(k) == y.get(k), 'merge', '%s%s of %s of fold %d '
                      'is %r, expected %r', tag, k, sec, f, x.get(k),
                      y.get(k))
    R.probe('merged')
