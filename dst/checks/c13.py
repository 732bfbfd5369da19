"""C13: experiment results are complete, aligned and free of leakage."""
import json

import numpy as np

from .. import exps, gen as G, procs, simio
from ..core import Violation, check, dig

ID = 'C13'
RUNS = {'quick': 2400, 'thorough': 60000}
RULE = ('1-2 random experiments (method, scheme, options, input file), each '
        'run by 1-2 processes that get their input and give their output in '
        'different ways in random pieces, all at the same time on one '
        'simulated disk under a random schedule; non-trivial: a short read '
        'or write or a context switch happened')
SHRINK = [('switches',), ('procs',), ('exps', 0, 'rows'),
          ('exps', 0, 'test')]
COMPONENTS = {'real': ['scripts/exp_recsys_sp.py', 'scripts/exp_recsys_if.py',
                       'scripts/exp_recsys_util.py', 'kamrecsys',
                       'io stack of the interpreter', 'argparse', 'json',
                       'numpy', 'scipy.optimize', 'sklearn'],
              'simulated': ['disk', 'standard streams', 'processes',
                            'scheduling', 'clock'],
              'stub': ['/bin/cat /proc/cpuinfo']}
ASSUMPTIONS = ['every user of a cross-validated file has two events or more',
               'a model whose training does not depend on the order of equal '
               'computations is trained on the events in the order of the '
               'file']


def gen(rng, idx, tier):
    large = rng.random() < 0.015
    es = [exps.gen_exp(rng, large=large)
          for _ in range(1 if large else rng.choice([1, 1, 2]))]
    for e in es:
        if rng.random() < 0.07:
            e['rseed'] = None
    ps = []
    for i in range(len(es)):
        for _ in range(rng.choice([1, 2])):
            d = exps.gen_delivery(rng, es[i]['scheme'])
            d['exp'] = i
            ps.append(d)
    rng.shuffle(ps)
    if rng.random() < 0.3:
        # left by an earlier run
        ps[0]['old'] = rng.choice([3, 100, 20000])
    return {'xproc': rng.randint(1, 10 ** 6) if rng.random() < 0.1 else 0,
            'exps': es, 'procs': ps, 'lines': rng.random() < 0.12 and not large,
            'switches': G.switches(rng, rng.randint(3, 25) if len(ps) > 1
                                   else 0, 1, 12)}


other = exps.other


def simplify(plan):
    for i, p in enumerate(plan['procs']):
        for k in ('io', 'old', 'rel', 'log'):
            if p.get(k):
                q = json.loads(json.dumps(plan))
                q['procs'][i][k] = None
                yield q
        if p['in'] != 'opt' or p['out'] != 'opt':
            q = json.loads(json.dumps(plan))
            q['procs'][i].update({'in': 'opt', 'out': 'opt'})
            yield q
    for i, e in enumerate(plan['exps']):
        for k in ('crlf', 'long'):
            if e[k]:
                q = json.loads(json.dumps(plan))
                q['exps'][i][k] = False
                yield q
        if e['folds'] > 1 and e['foldopt']:
            q = json.loads(json.dumps(plan))
            q['exps'][i]['folds'] = 1
            yield q


def run(plan, R):
    rs = [exps.Ref(e) for e in plan['exps']]
    disk = simio.disk = simio.Disk()
    names = [exps.put_files(disk, e, 'e%d' % i)
             for i, e in enumerate(plan['exps'])]
    ps, outs = [], []
    for i, d in enumerate(plan['procs']):
        out = '/sim/out%d.json' % i
        outs.append(out)
        if d.get('old'):
            disk.put(out, b'{"old": 1} ' * d['old'])
        ps.append(exps.process(R, 'exp%d' % i, plan['exps'][d['exp']], d,
                               names[d['exp']], out))
    before = disk.snapshot()
    procs.run_procs(R, ps, plan['switches'], line_points=plan['lines'])
    exps.unmodified(disk, before, set(outs), 'an experiment')
    first = {}
    for i, (d, p) in enumerate(zip(plan['procs'], ps)):
        r = rs[d['exp']]
        what = 'experiment %s/%s' % (r.e['method'], r.e['scheme'])
        if p.status != 0 and may_fail(r) and \
                isinstance(p.error, ValueError) and 'in fit\n' in p.traceback:
            R.probe('training impossible')
            continue
        exps.ended_well(p, what)
        res = exps.parse(p, d, outs[i], what)
        exps.check_result(r, res, d, names[d['exp']], outs[i])
        R.ev(p.name, dig(exps.strip(res)))
        s = exps.strip(res)
        s.pop('environment')
        if r.e['rseed'] is None:
            R.probe('without a seed')
            continue
        if plan.get('xproc') and d['exp'] not in first:
            exps.same_elsewhere(R, 'c13', plan['xproc'], r.e, res)
        o = first.setdefault(d['exp'], s)
        diff = exps.differences(o, s)
        check(not diff, 'delivery', '%s gives different results if delivered '
              'in different ways: %s', what, '; '.join(diff))
        R.probe('%s/%s' % (r.e['method'], r.e['scheme']))
        if len(r.rows) > 60:
            R.probe('large')


def may_fail(r):
    """Whether training may be impossible for the data of an experiment."""
    if r.e['scheme'] == 'holdout':
        return not r.trainable()
    # the classes left in a fold are not known here
    return r.binary and min(r.sc.count(0), r.sc.count(1)) <= len(
        set(x[0] for x in r.rows)) * 3
