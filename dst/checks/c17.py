"""C17: statistics are exactly those of the recorded predictions."""
import bisect
import json
import math
import random

from .. import exps, gen as G, procs, seams, simio
from ..core import Violation, check, dig
from . import c15

ID = 'C17'
RUNS = {'quick': 8000, 'thorough': 100000}
RULE = ('1-3 result files - made up at random with folds stored in random '
        'orders, or produced by simulated one-fold runs merged in random '
        'order or by a full run - given to statistics scripts that run at '
        'the same time, get input and give output in different ways in '
        'random pieces, and may be crashed or fail and be run again; '
        'non-trivial: a fault fired or a context switch happened')
SHRINK = [('switches',), ('jobs',), ('jobs', '*', 'attempts')]
COMPONENTS = {'real': ['scripts/stats_recsys.py', 'kamrecsys.metrics',
                       'scripts/exp_recsys_sp.py', 'scripts/exp_recsys_if.py',
                       'scripts/exp_recsys_util.py',
                       'scripts/exp_recsys_fold_merge.py',
                       'io stack of the interpreter', 'argparse', 'json',
                       'numpy', 'sklearn.metrics'],
              'simulated': ['disk', 'standard streams', 'processes',
                            'scheduling', 'crashes',
                            'asynchronous exceptions'],
              'stub': ['/bin/cat /proc/cpuinfo']}
ASSUMPTIONS = ['results are made by the experiment or merge script, or have the '
               'same form']


CLOSE = [1e-3, 1e-4, 3e-5, 1e-6, 1e-8, 1e-12]


def value(rng, depth=0):
    r = rng.random()
    if r < 0.15 and depth < 3:
        return {rng.choice(['a', 'b', u'\u5bff', '10', '9', 'x y']):
                value(rng, depth + 1) for _ in range(rng.randint(0, 3))}
    if r < 0.3 and depth < 3:
        return [value(rng, depth + 1) for _ in range(rng.randint(0, 4))]
    return rng.choice([None, True, False, 0, 1, -3, 2 ** 60 + 1, 0.1, 1e-300,
                       1.5e300, 'str', u'\u00e9\u5bff "q" \\ \n', '', 'None',
                       rng.random(), -0.0])


def result(rng):
    """A made-up result file."""
    item = rng.random() < 0.4
    dom, nl = G.domain(rng)
    if item:
        dom, nl = rng.choice([[0, 1, 1], [1, 5, 1], [0.5, 5, 0.5]]), 2
    scale = rng.choice([1.0, 1.0, 1.0, 1e-3, 1e6])

    def scores(n):
        same = rng.random() < 0.15
        t, p = [], []
        centre = rng.choice([0.5, 0.75, rng.random(), 1e-9])
        for _ in range(n):
            if item:
                x = rng.randrange(2)
                y = rng.choice([0.0, 0.5, 1.0, 0.25, rng.random(),
                                rng.random(),
                                centre + rng.choice(CLOSE) * rng.randint(-5, 5)
                                ])
                if same:
                    x = 1
            else:
                x = G.level(dom, rng.randrange(nl))
                y = rng.choice([
                    x, G.level(dom, rng.randrange(nl)),
                    dom[0] + (rng.randrange(nl) + .5) * dom[2] +
                    rng.choice(CLOSE) * rng.choice([-1, 1]),
                    dom[0] - rng.random() * 9 * dom[2],
                    dom[1] + rng.random() * 9 * dom[2],
                    dom[0] + (rng.randrange(2 * nl) + .5) * dom[2] / 2,
                    x + rng.gauss(0, dom[2]), x + scale * rng.gauss(0, 3)])
            t.append(x)
            p.append(float(y))
        return t, p
    folds = None
    if rng.random() < 0.65:
        folds = [str(f) for f in range(rng.choice([1, 2, 3, 3, 5, 11, 12]))]
        rng.shuffle(folds)
        if rng.random() < 0.2:
            folds = folds[:rng.randint(1, len(folds))]
    pred = {}
    ns = {f: rng.choice([1, 1, 2, 3, rng.randint(1, 30)])
          for f in folds or ['']}
    sc = {f: scores(ns[f]) for f in ns}
    ev = {f: [[rng.randint(1, 9), rng.randint(1, 9)] for _ in range(ns[f])]
          for f in ns}
    if folds is None:
        pred = {'event': ev[''], 'true': sc[''][0], 'predicted': sc[''][1]}
    else:
        pred = {'event': ev, 'true': {f: sc[f][0] for f in folds},
                'predicted': {f: sc[f][1] for f in folds},
                'mask': {f: list(range(ns[f])) for f in folds}}
    if folds and rng.random() < 0.3:
        # an object of JSON has no order
        for k in sorted(pred):
            ks = list(folds)
            rng.shuffle(ks)
            pred[k] = [[f, pred[k][f]] for f in ks]
    elif folds:
        for k in sorted(pred):
            pred[k] = [[f, pred[k][f]] for f in folds]
    if rng.random() < 0.5:
        pred['event_feature'] = {'timestamp': value(rng)}
    keys = [['condition', {'score_domain': dom, 'n_folds': len(ns),
                           'x': value(rng)}],
            ['model', {'task_type': 'item_finder' if item
                       else 'score_predictor', 'options': value(rng)}],
            ['environment', value(rng)], ['training', value(rng)],
            ['test', value(rng)], ['prediction', pred]]
    if rng.random() < 0.2:
        keys.append([u'\u8ffd\u52a0', value(rng)])
    if rng.random() < 0.2:
        keys.append(['statistics', {'n_samples': -1, 'old': True}])
    rng.shuffle(keys)
    r = {'folds': folds is not None, 'keys': keys,
         'ascii': rng.random() < 0.7,
         'indent': rng.choice([None, None, 1])}
    if rng.random() < 0.015:
        # many predictions
        r['many'] = [rng.choice([600, 1500, 5000, 20000, 70000]),
                     rng.randrange(10 ** 6)]
    return r


def gen(rng, idx, tier):
    jobs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        j = {}
        if rng.random() < 0.15:
            e = exps.gen_exp(rng, max_users=4, max_events=16)
            e['opts']['maxiter'] = rng.choice([1, 2])
            j['exp'] = e
            if e['scheme'] == 'cv':
                n = e['folds']
                j['order'] = rng.sample(range(n), rng.choice(
                    [n, n, rng.randint(1, n)]))
        else:
            j['res'] = result(rng)
            if rng.random() < 0.08:
                j['bad'] = [rng.choice(['nan', 'nan', 'inf', 'truth', 'short',
                                        'long', 'task', 'fold']),
                            rng.randrange(10 ** 6)]
        j['d'] = exps.gen_delivery(rng, 'cv')
        j['d']['keep'] = rng.choice([None, True, True, False])
        if rng.random() < 0.1:
            j['d']['rseed'] = rng.randrange(1000)
        j['attempts'] = [c15.attempt(rng)] if rng.random() < 0.2 else []
        jobs.append(j)
    return {'jobs': jobs, 'lines': rng.random() < 0.05,
            'switches': G.switches(rng, rng.randint(3, 20)
                                   if len(jobs) > 1 else 0, 1, 14)}


def simplify(plan):
    for i, j in enumerate(plan['jobs']):
        d = j['d']
        if d.get('io') or d['in'] != 'opt' or d['out'] != 'opt':
            q = json.loads(json.dumps(plan))
            q['jobs'][i]['d'].update({'in': 'opt', 'out': 'opt', 'io': None,
                                      'rel': False})
            yield q
        if j.get('bad'):
            q = json.loads(json.dumps(plan))
            del q['jobs'][i]['bad']
            yield q
        if 'res' in j and j['res'].get('many'):
            q = json.loads(json.dumps(plan))
            del q['jobs'][i]['res']['many']
            yield q
        if j['attempts']:
            q = json.loads(json.dumps(plan))
            q['jobs'][i]['attempts'] = []
            yield q


def document(j):
    r = {}
    for k, v in j['keys']:
        if k == 'prediction' and j['folds']:
            v = {x: dict((f, y) for f, y in z) if x != 'event_feature' else z
                 for x, z in v.items()}
        r[k] = v
    if j.get('many'):
        enlarge(r['prediction'], random.Random(j['many'][1]), j['many'][0])
    return json.dumps(r, ensure_ascii=j['ascii'],
                      indent=j['indent']).encode('utf-8')


def enlarge(P, rng, n):
    """Predictions of the made-up result, and ones near to them, n in all."""
    t, p, ev = P['true'], P['predicted'], P['event']
    if isinstance(t, dict):
        fs = sorted(t)
        parts = [(t[f], p[f], ev[f], max(len(t[f]), n // len(fs)))
                 for f in fs]
    else:
        parts = [(t, p, ev, n)]
    for a, b, e, m in parts:
        k = len(a)
        for _ in range(m - k):
            i = rng.randrange(k)
            a.append(a[rng.randrange(k)] if rng.random() < .3 else a[i])
            b.append(b[i] + rng.choice([0, 0, rng.gauss(0, .1)]))
            e.append(list(e[i]))
    if 'mask' in P:
        for f in P['mask']:
            P['mask'][f] = list(range(len(t[f])))


def ruin(data, bad):
    """The document of a result that has no statistics."""
    what, n = bad
    r = json.loads(data.decode('utf-8'))
    P = r['prediction']
    t, p = P['true'], P['predicted']
    if isinstance(t, dict):
        f = sorted(t)[n % len(t)]
        if what == 'fold':
            del p[f]
            return json.dumps(r).encode('utf-8')
        t, p = t[f], p[f]
    if what in ('nan', 'fold'):
        q = t if n % 3 == 0 else p
        q[n % len(q)] = float('nan')
    elif what == 'inf':
        q = t if n % 3 == 0 else p
        q[n % len(q)] = float('-inf' if n % 2 else 'inf')
    elif what == 'truth' and r['model']['task_type'] == 'item_finder':
        t[n % len(t)] = [2, -1, 0.5][n // 7 % 3]
    elif what == 'short':
        q = t if n % 2 else p
        del q[n % len(q)]
    elif what == 'long':
        q = t if n % 2 else p
        q.insert(n % len(q), q[0])
    else:
        r['model']['task_type'] = ['', 'item finder', None][n % 3]
    return json.dumps(r).encode('utf-8')


def produce(R, disk, i, j):
    """The result of an experiment; False if it cannot be trained."""
    e = j['exp']
    d = {'in': 'opt', 'out': 'opt'}
    names = exps.put_files(disk, e, 'e%d' % i)
    path = '/sim/res%d.json' % i
    if j.get('order') and len(j['order']) % 3 != 1:
        fs = j['order']
        ps = [exps.process(R, 'fold%d.%d' % (i, f), e, d, names,
                           '/sim/f%d.%d.json' % (i, f), fold=f) for f in fs]
        procs.run_procs(R, ps, [[2, 1], [3, 0], [1, 2], [5, 1]])
        ok = all(p.status == 0 for p in ps)
        if ok:
            q = exps.merge_process(R, 'merge%d' % i, [
                '/sim/f%d.%d.json' % (i, f) for f in fs], path, d)
            procs.run_procs(R, [q])
            exps.ended_well(q, 'merging')
            R.probe('merged result')
    else:
        ps = [exps.process(R, 'exp%d' % i, e, d, names, path)]
        procs.run_procs(R, ps)
        ok = ps[0].status == 0
    if not ok:
        for p in ps:
            if p.status != 0:
                check(e['method'] == 'lpmf' and isinstance(
                    p.error, ValueError) and 'in fit\n' in p.traceback,
                    'unexpected-error', 'experiment ended with %r: %s',
                    p.status, p.traceback)
        R.probe('training impossible')
    return path if ok else None


def run(plan, R):
    disk = simio.disk = simio.Disk()
    todo, jobs = [], []
    for i, j in enumerate(plan['jobs']):
        if 'exp' in j:
            path = produce(R, disk, i, j)
            if path is None:
                continue
        else:
            path = '/sim/res%d.json' % i
            data = document(j['res'])
            disk.put(path, ruin(data, j['bad']) if j.get('bad') else data)
        jobs.append((i, j, path, '/sim/stats%d.json' % i))
        todo.append(list(j['attempts']) + [None])
    before = disk.snapshot()
    outs = set(o for _, j, _, o in jobs)
    rnd = si = 0
    while any(todo):
        ps, trips, who = [], {}, []
        for (i, j, path, out), q in zip(jobs, todo):
            if not q:
                continue
            a = q.pop(0)
            d = dict(j['d'], io=(a or {}).get('io') or j['d'].get('io'))
            if a and a.get('trip'):
                trips[len(ps)] = tuple(a['trip'])
            f = []
            if a and a.get('fault'):
                f = [dict(a['fault'], op=abs(a['fault']['op']))]
            ps.append(exps.stats_process(R, 'stats%d.%d' % (i, rnd), path,
                                         out, d, f))
            who.append((j, path, out, a))
        sw = plan['switches'][si:si + 10] if len(ps) > 1 else []
        si += len(sw)
        procs.run_procs(R, ps, sw, trips=trips,
                        line_points=plan['lines'] or bool(trips))
        exps.unmodified(disk, before, outs, 'the statistics script')
        for (j, path, out, a), p in zip(who, ps):
            if p.status != 0:
                if j.get('bad'):
                    R.probe('unusable result refused')
                    continue
                check(a is not None and (p.faults_hit or p.crashed or
                                         a.get('trip')), 'unexpected-error',
                      'the statistics script ended with %r: %s', p.status,
                      p.traceback)
                continue
            check(not j.get('bad'), 'unusable-result', 'the statistics '
                  'script ended successfully for a result that has no '
                  'statistics (%r)', j.get('bad'))
            check(not p.faults_hit, 'failure-hidden', 'the statistics script '
                  'ended successfully although an operation failed')
            res = exps.parse(p, j['d'], out, 'the statistics script')
            verify(R, json.loads(before[path].decode('utf-8')), res,
                   bool(j['d'].get('keep')))
        rnd += 1


def verify(R, src, res, keep):
    check('statistics' in res, 'content', 'no statistics')
    a, b = dict(src), dict(res)
    st = b.pop('statistics')
    a.pop('statistics', None)
    if not keep:
        check('prediction' not in b, 'content',
              'predictions are kept without being requested')
        a.pop('prediction')
    diff = exps.differences(a, b)
    check(not diff, 'content', 'contents of the result are changed: %s',
          '; '.join(diff))
    P = src['prediction']
    if isinstance(P['event'], dict):
        fs = list(P['true'])
        t = [float(x) for f in fs for x in P['true'][f]]
        p = [float(x) for f in fs for x in P['predicted'][f]]
    else:
        t = [float(x) for x in P['true']]
        p = [float(x) for x in P['predicted']]
    R.ev('stats', dig(st))
    if len(t) > 500:
        R.probe('many predictions')
    n = len(t)
    same(st.get('n_samples') == n and not isinstance(st['n_samples'], bool),
         'n_samples', st.get('n_samples'), n)
    for k, x in (('true', t), ('predicted', p)):
        m, s = mean_stdev(x)
        near(st, (k, 'mean'), m, x)
        near(st, (k, 'stdev'), s, x)
    if src['model']['task_type'] == 'item_finder':
        pos = [y for x, y in zip(t, p) if x == 1]
        neg = [y for x, y in zip(t, p) if x == 0]
        v = st.get('area under the curve')
        if pos and neg:
            neg.sort()
            auc = sum((bisect.bisect_left(neg, y) + bisect.bisect_right(
                neg, y)) / 2. for y in pos) / (len(pos) * len(neg))
            same(isinstance(v, float) and abs(v - auc) < 1e-9,
                 'area under the curve', v, auc)
            R.probe('area under the curve')
        else:
            same(v is None or v != v, 'area under the curve', v, 'none')
        R.probe('item finder')
        return
    R.probe('score predictor')
    ae = [abs(x - y) for x, y in zip(t, p)]
    m, s = mean_stdev(ae)
    near(st, ('mean absolute error', 'mean'), m, ae)
    near(st, ('mean absolute error', 'stdev'), s, ae)
    se = [x * x for x in ae]
    m, s = mean_stdev(se)
    near(st, ('mean squared error', 'mean'), m, se)
    near(st, ('mean squared error', 'stdev'), s, se)
    near(st, ('mean squared error', 'rmse'), math.sqrt(m), ae)
    dom = src['condition']['score_domain']
    nl = int(round((dom[1] - dom[0]) / dom[2])) + 1
    lv = [dom[0] + i * dom[2] for i in range(nl)]
    got = st.get('score levels')
    same(isinstance(got, list) and len(got) == nl and
         all(abs(x - y) < 1e-6 * dom[2] for x, y in zip(got, lv)),
         'score levels', got, lv)
    for k, x in (('true', t), ('predicted', p)):
        histogram(st, k, x, lv, dom[2])


def histogram(st, k, x, lv, stride):
    nl = len(lv)
    sure, maybe = [0] * nl, [0] * nl
    for v in x:
        r = (v - lv[0]) / stride + 0.5
        i = int(math.floor(r)) if abs(r) < 1e9 else (nl if r > 0 else -1)
        # on the border between two bins
        near_ = abs(r - round(r)) < 1e-6
        a = min(nl - 1, max(0, i))
        if near_:
            j = int(round(r)) if abs(r) < 1e9 else i
            b = {min(nl - 1, max(0, j)), min(nl - 1, max(0, j - 1))}
            if len(b) == 1:
                sure[b.pop()] += 1
            else:
                for q in b:
                    maybe[q] += 1
        else:
            sure[a] += 1
    h = st[k].get('histogram')
    same(isinstance(h, list) and len(h) == nl and sum(h) == len(x) and
         all(s <= c <= s + m for s, m, c in zip(sure, maybe, h)),
         'histogram of ' + k, h, (sure, maybe))
    g = st[k].get('histogram density')
    same(isinstance(g, list) and len(g) == nl and
         all(abs(y - c / float(len(x))) < 1e-12 for y, c in zip(g, h)),
         'histogram density of ' + k, g, h)


def mean_stdev(x):
    m = math.fsum(x) / len(x)
    return m, math.sqrt(max(0.0, math.fsum((v - m) ** 2 for v in x) / len(x)))


def near(st, path, want, x):
    v = st
    for k in path:
        v = v.get(k) if isinstance(v, dict) else None
    tol = 1e-9 * max([1e-300] + [abs(y) for y in x])
    same(isinstance(v, (int, float)) and abs(v - want) <= tol,
         ' '.join(path), v, want)


def same(ok, what, got, want):
    check(ok, 'statistics', '%s is %r, expected %r', what, got, want)
