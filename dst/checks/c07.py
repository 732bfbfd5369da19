"""C07: served predictions follow the learned model, however requested."""
import base64
import copy
import json
import pickle
import random

import numpy as np

from .. import bulk, gen as G, models, refs, seams, xcall
from ..core import Violation, check, dig
from ..sched import Sched, count_points

ID = 'C07'
RUNS = {'quick': 5000, 'thorough': 80000}
RULE = ('models trained on random data (also with parameters far away from '
        'an optimum) answer requests of 1-4 interleaved clients: single '
        'events, batches in any order and array layout, unknown ids, wide '
        'events, requests cut off and repeated, saved and restored models, '
        'now and then for up to 70000 events; '
        'each answer is compared with an independent evaluation of the '
        'learned parameters; non-trivial: a fault fired or a context switch '
        'happened')
SHRINK = [('switches',), ('tasks', 0), ('tasks', 1), ('tasks', 2),
          ('tasks', 3)]
COMPONENTS = {'real': ['kamrecsys.score_predictor', 'kamrecsys.item_finder',
                       'kamrecsys.data', 'pickle'],
              'simulated': ['thread scheduling', 'asynchronous exceptions',
                            'results of the optimizer'],
              'stub': ['the optimizer in part of the runs']}
ASSUMPTIONS = ['requests hold at least one event, of the size of a training '
               'event']

FORMS = ['array', 'array', 'list', 'tuple', 'F', 'view', 'ro', 'i32', 'one',
         'one', 'one-list', 'object', 'split', 'repeat', 'rows']


def gen(rng, idx, tier):
    big = bulk.generate_requests(rng, idx, tier)
    if big:
        return big
    n_models = rng.choice([1, 1, 2])
    ms = []
    for _ in range(n_models):
        s = models.gen_spec(rng)
        d = models.gen_data(rng, [s['cls']], max_events=14)
        m = {'spec': s, 'data': d}
        if s['cls'] != 'MultinomialPLSA' and rng.random() < 0.5:
            m['point'] = {'mode': 'point', 'seed': rng.randrange(10 ** 6),
                          'scale': rng.choice([0.3, 1, 5, 40, 500]),
                          'success': True, 'status': 0, 'message': 'x',
                          'nit': 1, 'nfev': 1, 'njev': 1}
        ms.append(m)
    n_tasks = rng.choice([1, 2, 2, 3, 4])
    tasks = []
    for _ in range(n_tasks):
        ops = []
        for _ in range(rng.randint(2, 8)):
            o = {'op': rng.choices(['request', 'save', 'refit', 'convert'],
                                   [8, 1, 0.5, 0.7])[0],
                 'model': rng.randrange(n_models), 'n': rng.randint(1, 9),
                 'seed': rng.randrange(10 ** 6), 'form': rng.choice(FORMS),
                 'proto': rng.choice([2, 3, 4, 5, 'deep', 'copy'])}
            if o['op'] == 'save' and rng.random() < 0.12:
                o['proto'] = 'other'
            if o['op'] == 'convert' and rng.random() < 0.4:
                o['op'] = 'refuse'
            f = G.fault(rng, 0.2)
            if f and o['op'] == 'request':
                o['fault'] = f
            ops.append(o)
        tasks.append(ops)
    if n_tasks > 1 and rng.random() < 0.4:
        # everyone asks the same model at once, for as many events
        n, model = rng.choice([1, 2, 3, 7]), rng.randrange(n_models)
        for ops in tasks:
            for o in ops:
                if o['op'] == 'request':
                    o.update(n=n, model=model, form=rng.choice(
                        ['array', 'array', 'one' if n == 1 else 'F']))
        return {'models': ms, 'tasks': tasks,
                'switches': G.switches(rng, rng.randint(15, 40), 1, 12)}
    return {'models': ms, 'tasks': tasks,
            'switches': G.switches(rng, rng.randint(4, 30)
                                   if n_tasks > 1 else 0, 1, 40)}


def simplify(plan):
    if 'bulk' in plan:
        for c in bulk.simplify_requests(plan):
            yield c
        return
    for k in range(len(plan['tasks']) - 1, -1, -1):
        if len(plan['tasks']) > 1:
            c = json.loads(json.dumps(plan))
            del c['tasks'][k]
            yield c
    for k, ops in enumerate(plan['tasks']):
        for j, o in enumerate(ops):
            if o.get('fault'):
                c = json.loads(json.dumps(plan))
                del c['tasks'][k][j]['fault']
                yield c
            if o['n'] > 1:
                c = json.loads(json.dumps(plan))
                c['tasks'][k][j]['n'] = 1
                yield c


def arrays(rows, form, strs):
    """The request in the given form: list of (argument, rows)."""
    if form == 'one':
        return [(np.array(rows[0]), rows[:1])]
    if form == 'one-list':
        return [(list(rows[0]), rows[:1])]
    if form == 'rows':
        return [(np.array(r), [r]) for r in rows]
    if form == 'split':
        h = max(1, len(rows) // 2)
        return [(np.array(rows[:h]), rows[:h])] + (
            [(np.array(rows[h:]), rows[h:])] if rows[h:] else [])
    if form == 'repeat':
        rows = rows + rows[::-1]
        return [(np.array(rows), rows)]
    if form == 'list':
        return [([list(r) for r in rows], rows)]
    if form == 'tuple':
        return [(tuple(tuple(r) for r in rows), rows)]
    a = np.array(rows)
    if form == 'F':
        a = np.asfortranarray(a)
    elif form == 'view':
        b = np.repeat(a, 2, axis=0)
        a = b[::2]
    elif form == 'ro':
        a.setflags(write=False)
    elif form == 'i32' and a.dtype.kind == 'i' and (
            np.all(np.abs(a) < 2 ** 31)):
        a = a.astype(np.int32)
    elif form == 'object' and strs:
        a = a.astype(object)
    return [(a, rows)]


def other(arg):
    return models.prints(pickle.loads(base64.b64decode(arg[0])), arg[1])


def run(plan, R):
    if 'bulk' in plan:
        return bulk.execute_requests(plan, R)
    ms = []
    for x in plan['models']:
        d = x['data']
        m = models.make(x['spec'])
        with seams.Optimizer(R, x.get('point')):
            models.fit(m, models.container(d), models.event_index(d))
        served = models.Served(m, d)
        if not all(np.all(np.isfinite(v)) for v in served.P.values()):
            R.probe('training diverged')
            R.ev('diverged')
            return
        rows = models.panel(d)
        ms.append({'m': m, 'd': d, 's': served, 'spec': x['spec'],
                   'p': models.prints(m, rows), 'rows': rows,
                   'points': count_points(
                       lambda: m.predict(np.array(rows)))})
        s0 = models.Served(m, d)
        s0.check(rows, m.predict(np.array(rows)), 'after training: ')
    sched = Sched(R, plan['switches'])

    def unchanged(x, what):
        bad = models.differ(x['p'], models.prints(x['m'], x['rows']))
        check(not bad, 'model-changed', '%s changed %s of the model', what,
              ', '.join(bad))

    def body(tid):
        def f(t):
            mine = {}
            for o in plan['tasks'][tid]:
                one(t, tid, mine, o)
        return f

    def one(t, tid, mine, o):
        i = o['model'] % len(ms)
        x = ms[i]
        m = mine.get(i, x['m'])
        d = x['d']
        strs = d['kind'] == 'str'
        R.mark(tid, o['op'], o['form'])
        if o['op'] == 'save':
            # the models in use are saved and restored by this client
            if o['proto'] == 'other':
                # restored in a process with another hash seed
                with sched.quiet(t):
                    got = xcall.call('c07', o['seed'], [
                        base64.b64encode(pickle.dumps(m, 4)).decode('ascii'),
                        x['rows']])
                    bad = models.differ(x['p'], got)
                    check(not bad, 'restored', 'a model restored in another '
                          'process has different %s', ', '.join(bad))
                R.fault('process:restart-with-another-hash-seed')
                return
            if o['proto'] == 'deep':
                st, v = sched.call(t, lambda: copy.deepcopy(m))
            elif o['proto'] == 'copy':
                st, v = sched.call(t, lambda: copy.copy(m))
            else:
                st, v = sched.call(
                    t, lambda: pickle.loads(pickle.dumps(m, o['proto'])))
            if st == 'exc':
                raise Violation('unexpected-error',
                                'saving and restoring raised %r' % (v,))
            mine[i] = v
            with sched.quiet(t):
                bad = models.differ(x['p'], models.prints(v, x['rows']))
                check(not bad, 'restored', 'a restored model has different '
                      '%s', ', '.join(bad))
            return
        if o['op'] == 'refit':
            # another object is trained meanwhile
            with sched.quiet(t):
                other = models.make(x['spec'])
                c = models.container(d)
            sched.call(t, lambda: models.fit(other, c,
                                             models.event_index(d)))
            with sched.quiet(t):
                unchanged(x, 'training another model')
            return
        rows = models.panel(d, random.Random(o['seed']), o['n'])
        if o['op'] == 'convert':
            a = np.array(rows)
            st, v = sched.call(t, lambda: m.to_iid_event(a))
            if st == 'exc':
                raise Violation('unexpected-error', 'conversion raised %r'
                                % (v,))
            with sched.quiet(t):
                unchanged(x, 'conversion of ids')
            return
        if o['op'] == 'refuse':
            a = [np.array(rows)[:0], np.array(rows)[:, :-1],
                 np.array([list(r) + [r[-1]] for r in rows]),
                 np.array(rows[0])[:-1], np.array([rows, rows]),
                 np.array(rows[0][0])][o['seed'] % 6]
            st, v = sched.call(t, lambda: m.predict(a))
            check(st == 'exc', 'not-refused', 'a request of shape %r is '
                  'answered by %r', a.shape, v)
            with sched.quiet(t):
                unchanged(x, 'a request of a wrong shape')
            R.probe('request of a wrong shape refused')
            return
        if o['seed'] % 3 == 0 and len(rows[0]) > 2:
            # elements that were not chosen for training do not matter
            for r in rows:
                for e in range(len(r)):
                    if e not in x['s'].index:
                        r[e] = '!' if strs else -77
        for arg, part in arrays(rows, o['form'], strs):
            keep = copy.deepcopy(arg)
            fault = None
            if o.get('fault'):
                fault = (1 + int(o['fault']['at'] * x['points']),
                         o['fault']['kind'])
            st, v = sched.call(t, lambda: m.predict(arg), fault)
            if st == 'exc':
                if fault is None or t.fired is None:
                    raise Violation(
                        'unexpected-error', 'request %r raised %r'
                        % (part, v))
                R.probe('request cut off, then repeated')
                with sched.quiet(t):
                    check(dig(arg) == dig(keep), 'argument',
                          'a request that was cut off is modified')
                    unchanged(x, 'a request that was cut off')
                st, v = sched.call(t, lambda: m.predict(arg))
                if st == 'exc':
                    raise Violation('unexpected-error',
                                    'repeated request raised %r' % (v,))
            with sched.quiet(t):
                x['s'].check(part, v, '%s: ' % x['spec']['cls'])
                check(dig(arg) == dig(keep), 'argument',
                      'serving modified the request %r', part)
                R.ev(tid, 'request', o['form'], dig(np.array(v)))
                try:
                    np.asarray(v)[...] = -55.0
                except ValueError:
                    pass
                unchanged(x, 'a request')
        if any(u is None for r in rows for u in x['s'].internal(r)):
            R.probe('unseen object')

    for k in range(len(plan['tasks'])):
        sched.spawn(body(k))
    sched.run()
    for x in ms:
        unchanged(x, 'everything')
