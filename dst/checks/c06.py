"""C06: an interrupted or failed training is reported and recoverable."""
import copy
import json

import numpy as np

from .. import env, gen as G, models, refs, seams
from ..core import Violation, check, dig, injected
from ..sched import Sched, count_points
from .c04 import Globals

ID = 'C06'
RUNS = {'quick': 2400, 'thorough': 60000}
RULE = ('trainings that are hit at a random point by cancellation, lack of '
        'memory or an error, whose optimizer raises (at once or at its n-th '
        'evaluation), or whose data are unusable, one or more times in a '
        'row and interleaved with other callers; afterwards the same object '
        'is trained again and compared bit by bit with a fresh object; '
        'non-trivial: a fault fired or a context switch happened')
SHRINK = [('switches',), ('tasks', 0), ('tasks', 1), ('tasks', 2)]
COMPONENTS = {'real': ['kamrecsys.score_predictor', 'kamrecsys.item_finder',
                       'kamrecsys.data', 'scipy.optimize'],
              'simulated': ['thread scheduling', 'asynchronous exceptions',
                            'failures of the optimizer'],
              'stub': []}
ASSUMPTIONS = ['one recommender object is trained by one caller at a time',
               'faults strike at line boundaries of the code under test or '
               'inside the optimizer']

BAD = ['none', 'array', 'unset', 'type', 'index', 'not-binary', 'unscored',
       'uniform']


def gen(rng, idx, tier):
    n_specs = rng.choice([1, 1, 2])
    specs = [models.gen_spec(rng) for _ in range(n_specs)]
    for s in specs:
        s['rs'] = rng.random() < 0.2
    names = [s['cls'] for s in specs]
    size = models.large(rng, specs) if idx % 80 == 40 else {
        'max_events': 14}
    data = [models.gen_data(rng, names, **size) for _ in range(2)]
    n_tasks = rng.choice([1, 1, 2, 3])
    tasks = []
    for _ in range(n_tasks):
        ops = []
        for _ in range(rng.randint(1, 4)):
            o = {'spec': rng.randrange(n_specs), 'slot': rng.randrange(2),
                 'data': rng.randrange(2), 'again': rng.randrange(2),
                 'copy': rng.random() < 0.15}
            r = rng.random()
            if r < 0.62:
                o['how'] = 'fault'
                o['fault'] = G.fault(rng, 1.0)
            elif r < 0.74:
                o['how'] = 'optimizer'
                o['exc'] = rng.choice(G.MORE)
                o['n'] = rng.choice([0, 1, 1, 2, 3, 5, 9])
            elif r < 0.9:
                o['how'] = 'bad'
                o['bad'] = rng.choice(BAD)
            else:
                o['how'] = 'fine'
            if rng.random() < 0.3:
                o['twice'] = G.fault(rng, 1.0)
            ops.append(o)
        tasks.append(ops)
    return {'specs': specs, 'data': data, 'tasks': tasks,
            'switches': G.switches(rng, rng.randint(4, 22)
                                   if n_tasks > 1 else 0, 1, 250),
            'global_seed': rng.randrange(10 ** 6)}


def simplify(plan):
    for k in range(len(plan['tasks']) - 1, -1, -1):
        if len(plan['tasks']) > 1:
            c = json.loads(json.dumps(plan))
            del c['tasks'][k]
            yield c
    for k, ops in enumerate(plan['tasks']):
        for j, o in enumerate(ops):
            for key in ('twice', 'copy'):
                if o.get(key):
                    c = json.loads(json.dumps(plan))
                    del c['tasks'][k][j][key]
                    yield c


def bad_input(kind, spec, d, c):
    """(container, event_index) no model can be trained on, or None."""
    from kamrecsys.data import EventData, EventWithScoreData
    ix = models.event_index(d)
    if kind == 'none':
        return None, ix
    if kind == 'array':
        return np.array(d['ev']), ix
    if kind == 'unset':
        return type(c)(n_otypes=d['n_otypes'], event_otypes=d['otypes']), ix
    if kind == 'index':
        s = c.s_event
        return c, [0, s + 1]
    if kind in ('type', 'unscored') and spec['cls'] != 'ImplicitLogisticPMF':
        e = EventData(n_otypes=d['n_otypes'], event_otypes=d['otypes'])
        e.set_event(G.ev_array(d))
        return e, ix
    if kind in ('not-binary', 'uniform') and spec['cls'] == 'LogisticPMF':
        e = EventWithScoreData(n_otypes=d['n_otypes'],
                               event_otypes=d['otypes'])
        n = len(d['ev'])
        if kind == 'uniform':
            e.set_event(G.ev_array(d), np.ones(n, dtype=int),
                        score_domain=(0, 1, 1))
        else:
            e.set_event(G.ev_array(d), np.arange(n) % 3,
                        score_domain=(0, 2, 1))
        return e, ix
    return None


def answers(m, rows):
    """What a model answers to each event, None if it refuses."""
    out = []
    for r in rows:
        try:
            out.append(dig(np.array(m.predict(np.array([r])))))
        except Exception:
            out.append(None)
    return out


def learned(m):
    return [getattr(m, k) for k in
            models.NAMES.get(type(m).__name__, models.PNAMES)]


def run(plan, R):
    specs, data = plan['specs'], plan['data']
    rows = [models.panel(d) for d in data]
    conts = [models.container(d) for d in data]
    ixs = [models.event_index(d) for d in data]
    np.random.seed(5)
    ref, points, others = {}, {}, []
    for i, s in enumerate(specs):
        for j, d in enumerate(data):
            with env.world():
                m = models.make(s)
                points[i, j] = count_points(
                    lambda: models.fit(m, models.container(d), ixs[j]))
                ref[i, j] = models.prints(m, rows[j])
            m = models.make(s)
            models.fit(m, models.container(d), ixs[j])
            others.append((m, i, j))
    opts = {}
    for i, s in enumerate(specs):
        if 'options' in s:
            opts[i] = dict(s['options'])
    g = Globals(plan['global_seed'])
    snaps = [refs.snap(c) for c in conts]
    ix_snaps = [dig(x) for x in ixs]
    opts0 = copy.deepcopy(opts)
    sched = Sched(R, plan['switches'])
    trained = {}

    def unharmed(what):
        for c, s in zip(conts, snaps):
            check(refs.snap(c) == s, 'data-changed',
                  '%s changed a data container', what)
        for x, s in zip(ixs, ix_snaps):
            check(dig(x) == s, 'argument', '%s changed event_index', what)
        check(opts == opts0, 'argument', '%s changed the options of the '
              'caller: %r', what, opts)
        g.check('by ' + what)
        for m, i, j in others:
            bad = models.differ(ref[i, j], models.prints(m, rows[j]))
            check(not bad, 'model-changed', '%s changed %s of another %s',
                  what, ', '.join(bad), specs[i]['cls'])

    def unmixed(m, i, j, ask, had, had_params, what):
        """A model never mixes what two trainings gave it."""
        if not any(x is y and x is not None for x, y in
                   zip(learned(m), had_params)):
            # all that is left, if anything, belongs to one training
            return
        full = [x for x, a, b in others if (a, b) == (i, j)][0]
        new = answers(full, ask)
        got = answers(m, ask)
        for k, r in enumerate(ask):
            check(got[k] is None or had is not None and got[k] == had[k] or
                  got[k] == new[k], 'mixture', '%s was followed by a '
                  'prediction for %r that is neither that of the model '
                  'before nor that of the trained one', what, r)
        if had is not None and None in got:
            R.probe('no prediction after a failed training')

    def rearm(m, spec):
        if spec.get('rs'):
            m.random_state = np.random.RandomState(spec['seed'])

    def one(t, tid, slots, o):
        i, j = o['spec'] % len(specs), o['data'] % len(data)
        spec, d = specs[i], data[j]
        with sched.quiet(t):
            m = slots.get((o['slot'], i))
            if m is None:
                m = slots[o['slot'], i] = models.make(spec, opts.get(i))
            rearm(m, spec)
        how = o['how']
        R.mark(tid, how)
        c, ix, plan_opt, fault = conts[j], ixs[j], None, None
        must_fail = False
        if how == 'fault':
            f = o['fault']
            fault = (1 + int(f['at'] * points[i, j]), f['kind'])
        elif how == 'optimizer' and spec['cls'] != 'MultinomialPLSA':
            if o['n'] == 0:
                plan_opt = {'mode': 'raise', 'exc': o['exc']}
            else:
                plan_opt = {'mode': 'raise_eval', 'n': o['n'],
                            'exc': o['exc']}
        elif how == 'bad':
            with sched.quiet(t):
                b = bad_input(o['bad'], spec, d, conts[j])
            if b is not None:
                c, ix = b
                must_fail = True
                R.fault('unusable data:' + o['bad'])
        ask = [r for k in sorted(set([trained.get(m, j), j]))
               for r in rows[k]]
        with sched.quiet(t):
            had = answers(m, ask) if m in trained else None
            had_params = learned(m)
        before = R.faults['optimizer:raise:' + o.get('exc', '')] + \
            R.faults['optimizer:raise-in-evaluation:' + o.get('exc', '')]

        def go():
            with seams.Optimizer(R, plan_opt):
                return models.fit(m, c, ix)
        st, v = sched.call(t, go, fault)
        after = R.faults['optimizer:raise:' + o.get('exc', '')] + \
            R.faults['optimizer:raise-in-evaluation:' + o.get('exc', '')]
        hit = (must_fail or (fault is not None and t.fired is not None) or
               (plan_opt is not None and after > before and
                len(plan['tasks']) == 1) or
               st == 'exc' and injected(v))
        R.ev(tid, 'fit', i, j, how, st, t.fired if fault else '')
        what = 'a training of %s that failed (%s)' % (
            spec['cls'], t.fired if fault else
            how + ':' + str(o.get('bad') or o.get('exc')))
        with sched.quiet(t):
            if st == 'ok':
                check(not hit, 'failure-hidden', 'the error of %s did not '
                      'reach the caller', what)
                p = models.prints(m, rows[j])
                bad = models.differ(ref[i, j], p)
                check(not bad, 'recovery', 'an undisturbed training after '
                      'failed ones gives different %s than a fresh object',
                      ', '.join(bad))
                trained[m] = j
                return
            if not hit:
                raise Violation('unexpected-error', 'training raised %r'
                                % (v,))
            if must_fail:
                check(isinstance(v, Exception), 'failure-hidden',
                      'unusable data end with %r', v)
            else:
                check(injected(v), 'failure-hidden',
                      'the error of %s reached the caller as %r', what, v)
            unharmed(what)
            unmixed(m, i, j, ask, had, had_params, what)
            trained.pop(m, None)
        j = o['again'] % len(data)
        if o.get('twice'):
            # fails once more before it succeeds
            f = o['twice']
            with sched.quiet(t):
                rearm(m, spec)
            st, v = sched.call(
                t, lambda: models.fit(m, conts[1 - j], ixs[1 - j]),
                (1 + int(f['at'] * points[i, 1 - j]), f['kind']))
            if st == 'exc' and t.fired is None:
                raise Violation('unexpected-error', 'training raised %r'
                                % (v,))
            check(st == 'exc' or t.fired is None, 'failure-hidden',
                  'an error in a training did not reach the caller')
        with sched.quiet(t):
            rearm(m, spec)
            if o.get('copy'):
                m = slots[o['slot'], i] = copy.deepcopy(m)
        st, v = sched.call(t, lambda: models.fit(m, conts[j], ixs[j]))
        if st == 'exc':
            raise Violation('recovery', 'training again after %s raised %r'
                            % (what, v))
        with sched.quiet(t):
            bad = models.differ(ref[i, j], models.prints(m, rows[j]))
            trained[m] = j
            check(not bad, 'recovery', 'training again after %s gives '
                  'different %s than training a fresh object', what,
                  ', '.join(bad))
            unharmed('training again')

    def body(tid):
        def f(t):
            slots = {}
            for o in plan['tasks'][tid]:
                one(t, tid, slots, o)
        return f
    for k in range(len(plan['tasks'])):
        sched.spawn(body(k))
    sched.run()
    unharmed('everything')
