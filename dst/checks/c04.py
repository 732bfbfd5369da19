"""C04: seeded training is exactly repeatable in any surroundings."""
import copy
import json
import logging
import pickle
import random

import numpy as np

from .. import around, env, gen as G, models, xcall
from ..core import Violation, check, dig
from ..sched import Sched, count_points

ID = 'C04'
RUNS = {'quick': 2400, 'thorough': 50000}
RULE = ('random training settings and data; 1-3 interleaved callers train, '
        'retrain (also after an interrupted training), predict, filter, draw '
        'from and reseed the global generator and change the log level; each '
        'trained model is compared bit by bit with a fresh serial training; '
        'some runs repeat the training in another process with another hash '
        'seed; non-trivial: a fault fired or a context switch happened')
SHRINK = [('switches',), ('tasks', 0), ('tasks', 1), ('tasks', 2)]
COMPONENTS = {'real': ['kamrecsys.score_predictor', 'kamrecsys.item_finder',
                       'kamrecsys.data', 'scipy.optimize'],
              'simulated': ['thread scheduling', 'asynchronous exceptions',
                            'global random generator', 'hash seed'],
              'stub': []}
ASSUMPTIONS = ['one recommender object is trained by one caller at a time',
               'numerical libraries run single-threaded']


def gen(rng, idx, tier):
    n_specs = rng.choice([1, 2, 2, 3])
    specs = [models.gen_spec(rng) for _ in range(n_specs)]
    for s in specs:
        s['rs'] = rng.random() < 0.25
    names = [s['cls'] for s in specs]
    big = idx % 80 == 40
    size = models.large(rng, specs) if big else {'max_events': 16}
    data = [models.gen_data(rng, names, **size)
            for _ in range(rng.choice([1, 1, 2]))]
    n_tasks = rng.choice([1, 2, 2, 3])
    tasks = []
    for _ in range(n_tasks):
        ops = []
        for _ in range(rng.randint(2, 6)):
            k = rng.choices(
                ['fit', 'predict', 'filter', 'noise', 'reseed', 'loglevel',
                 'unseeded'], [8, 2, 2, 3, 1, 2, 0.7])[0]
            o = {'op': k, 'spec': rng.randrange(n_specs),
                 'data': rng.randrange(len(data)), 'slot': rng.randrange(2),
                 'n': rng.randint(1, 5)}
            if k == 'fit':
                o['via'] = rng.choice(['same', 'same', 'copy', 'filter',
                                       'rebuild'])
                if rng.random() < 0.15:
                    o['restored'] = rng.choice(['pickle', 'deepcopy'])
                f = G.fault(rng, 0.2)
                if f:
                    o['fault'] = f
            ops.append(o)
        ops.append({'op': 'fit', 'spec': rng.randrange(n_specs), 'data': 0,
                    'slot': rng.randrange(2), 'via': 'same', 'n': 1})
        tasks.append(ops)
    plan = {'specs': specs, 'data': data, 'tasks': tasks,
            'switches': G.switches(rng, rng.randint(4, 25)
                                     if n_tasks > 1 else 0, 1, 250),
            'global_seed': rng.randrange(10 ** 6)}
    if rng.random() < 0.15:
        plan['xproc'] = rng.randrange(1, 10 ** 6)
    if rng.random() < 0.3:
        plan['elsewhere'] = around.gen(rng, ID)
    return plan


def simplify(plan):
    for k in range(len(plan['tasks']) - 1, -1, -1):
        if len(plan['tasks']) > 1:
            c = json.loads(json.dumps(plan))
            del c['tasks'][k]
            yield c
    for k in sorted(plan.get('elsewhere') or {}):
        c = json.loads(json.dumps(plan))
        del c['elsewhere'][k]
        yield c
    for k, ops in enumerate(plan['tasks']):
        for j, o in enumerate(ops):
            if o.get('fault'):
                c = json.loads(json.dumps(plan))
                del c['tasks'][k][j]['fault']
                yield c


def train_fresh(spec, d):
    c = models.container(d)
    m = models.make(spec)
    models.fit(m, c, models.event_index(d))
    return models.prints(m, models.panel(d))


class Globals(object):
    """Follows the global random generators."""

    def __init__(self, seed):
        np.random.seed(seed)
        random.seed(seed)
        self.shadow = np.random.RandomState(seed)
        self.py = random.getstate()
        self.unseeded = 0

    def sync(self):
        self.shadow.set_state(np.random.get_state())

    def check(self, what):
        if self.unseeded:
            return
        a, b = np.random.get_state(), self.shadow.get_state()
        check(a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:],
              'global-generator', 'the state of the global random generator '
              'has changed %s', what)
        check(random.getstate() == self.py, 'global-generator',
              'the state of the generator of `random` has changed %s', what)


def run(plan, R):
    try:
        _run(plan, R)
    finally:
        logging.getLogger('kamrecsys').setLevel(logging.ERROR)


def _run(plan, R):
    specs, data = plan['specs'], plan['data']
    logging.getLogger('kamrecsys').setLevel(logging.ERROR)
    np.random.seed(99)
    ref, points = {}, {}
    for i, s in enumerate(specs):
        for j, d in enumerate(data):
            box = []
            with env.world():
                points[i, j] = count_points(
                    lambda: box.append(train_fresh(s, d)))
            ref[i, j] = box[0]
    R.ev('reference', dig(ref))
    with around.Surroundings(plan.get('elsewhere') or {}):
        for k in sorted(plan.get('elsewhere') or {}):
            R.fault('elsewhere:' + k)
        again(plan, R, ref, points)
    if plan.get('xproc'):
        other_process(plan, ref, R)


def again(plan, R, ref, points):
    specs, data = plan['specs'], plan['data']
    g = Globals(plan['global_seed'])
    shared = [models.container(d) for d in data]
    rows = [models.panel(d) for d in data]
    sched = Sched(R, plan['switches'])

    def body(ops, tid):
        def f(t):
            slots, broken = {}, set()
            for o in ops:
                one(t, tid, slots, broken, o)
        return f

    def one(t, tid, slots, broken, o):
        k = o['op']
        i, j = o['spec'] % len(specs), o['data'] % len(data)
        R.mark(tid, k)
        if k == 'fit':
            spec, d = specs[i], data[j]
            with sched.quiet(t):
                m = slots.get((o['slot'], i))
                if m is None:
                    m = slots[o['slot'], i] = models.make(spec)
                else:
                    R.probe('object trained again')
                    how = o.get('restored')
                    if how and (o['slot'], i) not in broken:
                        # as it was saved
                        m = (copy.deepcopy(m) if how == 'deepcopy' else
                             pickle.loads(pickle.dumps(m)))
                        slots[o['slot'], i] = m
                        R.probe('object restored and trained again')
                    if spec.get('rs'):
                        # an identically seeded generator
                        m.random_state = np.random.RandomState(spec['seed'])
                via = o['via']
                if via == 'same':
                    c = shared[j]
                elif via == 'copy':
                    c = copy.deepcopy(shared[j])
                elif via == 'filter':
                    c = shared[j].filter_event(
                        np.ones(len(d['ev']), dtype=bool))
                else:
                    c = models.container(d)
            ix = models.event_index(d)
            f = o.get('fault')
            st, v = sched.call(
                t, lambda: models.fit(m, c, ix),
                None if f is None else (1 + int(f['at'] * points[i, j]),
                                        f['kind']))
            R.ev(tid, 'fit', i, j, st)
            if st == 'exc':
                if f is None or t.fired is None:
                    raise Violation('unexpected-error',
                                    'training raised %r' % (v,))
                R.probe('training interrupted, then repeated')
                broken.add((o['slot'], i))
                with sched.quiet(t):
                    g.check('during an interrupted seeded training')
                    if spec.get('rs'):
                        m.random_state = np.random.RandomState(spec['seed'])
                st, v = sched.call(t, lambda: models.fit(m, c, ix))
                if st == 'exc':
                    raise Violation('unexpected-error',
                                    'training again raised %r' % (v,))
            broken.discard((o['slot'], i))
            with sched.quiet(t):
                p = models.prints(m, rows[j])
                bad = models.differ(ref[i, j], p)
                check(not bad, 'repeatability',
                      'training %r gives different %s than a fresh serial '
                      'training', spec, ', '.join(bad))
                g.check('during seeded training')
                slots['last', o['slot']] = (m, j, i)
        elif k == 'predict':
            x = slots.get(('last', o['slot']))
            if x is None:
                return
            m, j, i = x
            st, v = sched.call(t, lambda: m.predict(np.array(rows[j])))
            if st == 'exc':
                raise Violation('unexpected-error', 'predict raised %r' % v)
            with sched.quiet(t):
                check(dig(np.array(v)) == ref[i, j]['pred'], 'repeatability',
                      'predictions have changed')
                g.check('during prediction')
        elif k == 'filter':
            n = len(data[j]['ev'])
            mask = np.array([(7 * q + o['n']) % 3 != 0 for q in range(n)])
            sched.call(t, lambda: shared[j].filter_event(mask))
        elif k == 'noise':
            with sched.quiet(t):
                a = np.random.random_sample(o['n'])
                b = g.shadow.random_sample(o['n'])
                check(g.unseeded or np.array_equal(a, b), 'global-generator',
                      'draws from the global generator are not those of its '
                      'seed')
        elif k == 'reseed':
            with sched.quiet(t):
                s = 1000 + o['n']
                np.random.seed(s)
                g.shadow.seed(s)
        elif k == 'loglevel':
            logging.getLogger('kamrecsys').setLevel(
                [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR,
                 logging.CRITICAL][o['n'] % 5])
        elif k == 'unseeded':
            spec = dict(specs[i], rs=False, seed=None)
            g.unseeded += 1
            try:
                m = models.make(spec)
                sched.call(t, lambda: models.fit(
                    m, shared[j], models.event_index(data[j])))
            finally:
                g.unseeded -= 1
                if not g.unseeded:
                    g.sync()

    for k, ops in enumerate(plan['tasks']):
        sched.spawn(body(ops, k))
    sched.run()
    g.check('at the end')


def other(arg):
    """Runs in the other process."""
    specs, data = arg
    return {'%d,%d' % (i, j): train_fresh(s, d)
            for i, s in enumerate(specs) for j, d in enumerate(data)}


def other_process(plan, ref, R):
    got = xcall.call('c04', plan['xproc'], [plan['specs'], plan['data']])
    R.fault('process:restart-with-another-hash-seed')
    for i in range(len(plan['specs'])):
        for j in range(len(plan['data'])):
            bad = models.differ(ref[i, j], got['%d,%d' % (i, j)])
            check(not bad, 'repeatability', 'training %r in another process '
                  'gives different %s', plan['specs'][i], ', '.join(bad))
