"""C05: training leaves data alone and trained models are independent."""
import copy
import json

import numpy as np

from .. import gen as G, models, refs
from ..core import Violation, check, dig
from ..hist import make_cond, scramble
from ..sched import Sched, count_points

ID = 'C05'
RUNS = {'quick': 3000, 'thorough': 50000}
RULE = ('random histories of 1-3 interleaved callers training several models '
        'on shared containers with shared settings objects, with faults in '
        'some trainings, filling, filtering, binarising and overwriting '
        'containers and settings between them; after every step each trained '
        'model answers its panel of events as it did when it was trained; '
        'non-trivial: a fault fired or a context switch happened')
SHRINK = [('switches',), ('tasks', 0), ('tasks', 1), ('tasks', 2)]
COMPONENTS = {'real': ['kamrecsys.score_predictor', 'kamrecsys.item_finder',
                       'kamrecsys.data', 'scipy.optimize'],
              'simulated': ['thread scheduling', 'asynchronous exceptions'],
              'stub': []}
ASSUMPTIONS = ['a container is not changed while a model is being trained on '
               'it, and a recommender object is trained by one caller at a '
               'time']


def gen(rng, idx, tier):
    n_specs = rng.choice([1, 2, 2, 3])
    specs = [models.gen_spec(rng) for _ in range(n_specs)]
    for s in specs:
        if 'maxiter' in s:
            s['maxiter'] = min(s['maxiter'], 4)
        if 'options' in s:
            s['options']['maxiter'] = min(s['options']['maxiter'], 4)
        s['rs'] = rng.random() < 0.2
    names = [s['cls'] for s in specs]
    size = models.large(rng, specs) if idx % 80 == 40 else {
        'max_events': 14}
    d0 = models.gen_data(rng, names, **size)
    data = [d0]
    for _ in range(rng.choice([1, 2])):
        # same object types, so that a container can be refilled with it
        d = models.gen_data(rng, names, max_events=14,
                            wide=False)
        d.update(n_otypes=d0['n_otypes'], otypes=d0['otypes'])
        e = G.dataset(rng, max_events=14, max_objects=5,
                      n_otypes=d0['n_otypes'], otypes=d0['otypes'],
                      scored='sc' in d0, binary='LogisticPMF' in names,
                      min_events=3, auto_domain=False)
        if 'index' in d0:
            e['index'], e['index_kind'] = d0['index'], d0['index_kind']
        data.append(e)
    n_tasks = rng.choice([1, 1, 2, 2, 3])
    tasks = []
    for _ in range(n_tasks):
        ops = [{'op': 'train', 'spec': rng.randrange(n_specs), 'cont': 0,
                'slot': 0, 'share': rng.random() < 0.5}]
        for _ in range(rng.randint(2, 8)):
            k = rng.choices(
                ['train', 'retrain', 'predict', 'set', 'feature', 'filter',
                 'binarize', 'spoil', 'settings', 'query'],
                [5, 1, 2, 3, 2, 2, 1.5, 3, 2, 1])[0]
            o = {'op': k, 'spec': rng.randrange(n_specs),
                 'cont': rng.randrange(3), 'slot': rng.randrange(3),
                 'data': rng.randrange(len(data)),
                 'seed': rng.randrange(10 ** 6),
                 'share': rng.random() < 0.6}
            if k in ('train', 'retrain', 'predict', 'set', 'filter'):
                f = G.fault(rng, 0.25)
                if f:
                    o['fault'] = f
            ops.append(o)
        tasks.append(ops)
    return {'specs': specs, 'data': data, 'tasks': tasks,
            'switches': G.switches(rng, rng.randint(4, 22)
                                   if n_tasks > 1 else 0, 1, 250)}


def simplify(plan):
    for k in range(len(plan['tasks']) - 1, -1, -1):
        if len(plan['tasks']) > 1:
            c = json.loads(json.dumps(plan))
            del c['tasks'][k]
            yield c
    for k, ops in enumerate(plan['tasks']):
        for j, o in enumerate(ops):
            if o.get('fault'):
                c = json.loads(json.dumps(plan))
                del c['tasks'][k][j]['fault']
                yield c


class Cont(object):
    """A container shared by the callers."""

    def __init__(self, c, i):
        self.c = c
        self.i = i          # data set it holds, None: unknown contents
        self.readers = 0
        self.writer = False
        self.arrays = []    # arrays of the caller handed over to it


def arrays_of(m, seen=None, depth=0):
    """All arrays reachable from the attributes of a model."""
    seen = set() if seen is None else seen
    if depth > 4:
        return
    vals = (m.values() if isinstance(m, dict) else m if
            isinstance(m, (list, tuple)) else vars(m).values()
            if hasattr(m, '__dict__') else [])
    for v in vals:
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, np.ndarray):
            yield v
            if v.dtype == object:
                for x in v.ravel():
                    if isinstance(x, np.ndarray):
                        yield x
        elif isinstance(v, (list, tuple, dict)):
            for x in arrays_of(v, seen, depth + 1):
                yield x


class World(object):
    def __init__(self, plan, R):
        self.plan, self.R = plan, R
        self.models = []        # trained models: dict(m, rows, prints, ...)
        self.conts = []
        self.options = {}       # settings objects of the callers, by spec
        self.index = []
        self.np_state = None

    def build(self, i):
        """A new container with data set i; keeps the caller's arrays."""
        d = self.plan['data'][i]
        from kamrecsys.data import EventData, EventWithScoreData
        cls = EventWithScoreData if 'sc' in d else EventData
        k = Cont(cls(n_otypes=d['n_otypes'], event_otypes=d['otypes']), i)
        self.fill(k, i)
        return k

    def fill(self, k, i):
        d = self.plan['data'][i]
        ev, ef = G.ev_array(d), G.ef_array(d)
        k.arrays = [ev, ef]
        kw = {'event_feature': ef}
        if 'sc' in d:
            sc = G.sc_array(d)
            k.arrays.append(sc)
            dom = np.array(d['domain'])
            if len(d['ev']) % 2:
                dom = list(d['domain'])
            else:
                k.arrays.append(dom)

            def fn():
                k.c.set_event(ev, sc, score_domain=dom, **kw)
        else:
            def fn():
                k.c.set_event(ev, **kw)
        fn.features = []
        for o in range(d['n_otypes']):
            if str(o) in d.get('of', {}):
                e, f = G.of_arrays(d, o)
                k.arrays += [e, f]
                fn.features.append((o, e, f))

        def all_():
            fn()
            for o, e, f in fn.features:
                k.c.set_feature(o, e, f)
        if k.i is not None and k.c.event is None:
            all_()
        return all_

    def check_models(self, what):
        for x in self.models:
            if x['busy']:
                continue
            try:
                p = models.prints(x['m'], x['rows'])
            except Exception as e:
                raise Violation('model-changed', 'after %s, the %s trained '
                                'earlier fails: %r' % (what, x['name'], e))
            bad = [k for k in models.differ(x['p'], p) if k != 'report']
            check(not bad, 'model-changed', 'after %s, the %s trained '
                  'earlier has different %s', what, x['name'],
                  ', '.join(bad))


def run(plan, R):
    w = World(plan, R)
    specs = plan['specs']
    for i in range(min(3, len(plan['data']) + 1)):
        w.conts.append(w.build(i % len(plan['data'])))
    points = {}
    for i, s in enumerate(specs):
        k = w.conts[0]
        ix = models.event_index(plan['data'][0])
        points[i] = count_points(
            lambda: models.fit(models.make(s), k.c, ix))
        if 'options' in s:
            w.options[i] = dict(s['options'])
    sched = Sched(R, plan['switches'])

    def fault(o, n):
        f = o.get('fault')
        return None if f is None else (1 + int(f['at'] * n), f['kind'])

    def failed(t, o, v, what):
        if o.get('fault') is None or t.fired is None:
            raise Violation('unexpected-error', '%s raised %r' % (what, v))

    def train(t, tid, o, m=None, x=None):
        i = o['spec'] % len(specs)
        k = w.conts[o['cont'] % len(w.conts)]
        if k.writer or k.i is None:
            R.probe('container busy')
            return
        d = plan['data'][k.i]
        spec = specs[i]
        with sched.quiet(t):
            opts = w.options.get(i) if o['share'] else (
                dict(spec['options']) if 'options' in spec else None)
            keep = copy.deepcopy(opts)
            if m is None:
                m = models.make(spec, opts)
            ix = models.event_index(d)
            keep_ix = copy.deepcopy(ix)
            snap = refs.snap(k.c)
        k.readers += 1
        try:
            st, v = sched.call(t, lambda: models.fit(m, k.c, ix),
                               fault(o, points[i]))
        finally:
            k.readers -= 1
        with sched.quiet(t):
            R.ev(tid, 'train', i, st, o['cont'])
            check(refs.snap(k.c) == snap, 'data-changed',
                  'training %r changed the container', spec['cls'])
            check(opts == keep or o['share'] and len(plan['tasks']) > 1,
                  'argument', 'training %r changed the options of the caller '
                  'from %r to %r', spec['cls'], keep, opts)
            check(dig(ix) == dig(keep_ix) and type(ix) is type(keep_ix),
                  'argument', 'training changed event_index from %r to %r',
                  keep_ix, ix)
            if st == 'exc':
                failed(t, o, v, 'training')
                R.probe('training interrupted')
                return
            for a in ('event', 'score', 'event_feature'):
                check(getattr(m, a, None) is None, 'data-kept',
                      'the trained %s still holds %s', spec['cls'], a)
            own = [a for a in (k.c.event, getattr(k.c, 'score', None),
                               k.c.event_feature) if a is not None]
            for a in arrays_of(m):
                for b in own:
                    check(not np.may_share_memory(a, b) or
                          not np.shares_memory(a, b), 'data-kept',
                          'the trained %s refers to the events or scores it '
                          'was trained on', spec['cls'])
            rows = models.panel(d)
            new = {'m': m, 'rows': rows, 'busy': False, 'name': spec['cls'],
                   'p': models.prints(m, rows), 'cont': k, 'ix': ix,
                   'owner': tid, 'spec': i}
            check(refs.snap(k.c) == snap, 'data-changed',
                  'prediction changed the container')
            if x is not None:
                x.update(new)
            else:
                w.models.append(new)
                if len(w.models) > 6:
                    del w.models[0]

    def write(t, o, fn, n, what):
        """Change a container, unless someone is training on it."""
        k = w.conts[o['cont'] % len(w.conts)]
        if k.readers or k.writer or (k.i is None and what != 'set_event'):
            R.probe('container busy')
            return None, None
        k.writer = True
        try:
            st, v = sched.call(t, lambda: fn(k), fault(o, n))
        finally:
            k.writer = False
        if st == 'exc':
            failed(t, o, v, what)
            k.i = None      # its contents are unknown until it is refilled
        return st, k

    def one(t, tid, o):
        k = o['op']
        if k == 'train':
            train(t, tid, o)
        elif k == 'retrain':
            mine = [x for x in w.models if x['owner'] == tid]
            if not mine:
                return
            x = mine[o['slot'] % len(mine)]
            x['busy'] = True
            x['times'] = x.get('times', 0) + 1
            o = dict(o, spec=x['spec'])
            n = len(w.models)
            train(t, tid, o, x['m'], x)
            if x['busy']:
                # interrupted or not done: what it holds now is unspecified
                w.models[:] = [y for y in w.models if y is not x]
        elif k == 'predict':
            ms = [x for x in w.models if not x['busy']]
            if not ms:
                return
            x = ms[o['slot'] % len(ms)]
            a = np.array(x['rows'])
            keep = a.copy()
            x['n'] = x.get('n', 0) + 1
            times = x.get('times')
            st, v = sched.call(t, lambda: x['m'].predict(a), fault(o, 25))
            with sched.quiet(t):
                check(np.array_equal(a, keep), 'argument',
                      'prediction changed its argument')
                # while a model is trained again its predictions may be any
                settled = not x['busy'] and x.get('times') == times
                if st == 'exc':
                    if settled:
                        failed(t, o, v, 'prediction')
                else:
                    if settled:
                        check(dig(np.array(v)) == x['p']['pred'],
                              'model-changed',
                              'predictions of the %s trained earlier differ',
                              x['name'])
                    np.asarray(v)[...] = 0
        elif k == 'set':
            i = o['data'] % len(plan['data'])
            c = w.conts[o['cont'] % len(w.conts)]
            if c.readers or c.writer:
                return
            with sched.quiet(t):
                fn = w.fill(c, i)
            st, c = write(t, o, lambda c: fn(), 120, 'set_event')
            if st == 'ok':
                c.i = i
        elif k == 'feature':
            def fn(c):
                r = np.random.RandomState(o['seed'])
                ot = o['slot'] % plan['data'][0]['n_otypes']
                e = np.array(c.c.eid[ot])
                c.c.set_feature(ot, e, r.randint(0, 9, (len(e), 2)))
            write(t, o, fn, 20, 'set_feature')
        elif k == 'filter':
            c = w.conts[o['cont'] % len(w.conts)]
            if c.i is None or c.writer:
                return
            n = c.c.n_events
            mask = np.random.RandomState(o['seed']).rand(n) < 0.7
            mask[0] = True
            c.readers += 1
            try:
                st, v = sched.call(t, lambda: c.c.filter_event(mask),
                                   fault(o, 60))
            finally:
                c.readers -= 1
            if st == 'exc':
                failed(t, o, v, 'filter_event')
            else:
                # the derived container is overwritten at once
                with sched.quiet(t):
                    scramble(v.event)
                    scramble(getattr(v, 'score', None))
                    scramble(v.event_feature)
                    for f in v.feature:
                        scramble(f)
        elif k == 'binarize':
            if 'sc' not in plan['data'][0]:
                return
            st, c = write(t, o, lambda c: c.c.binarize_score(), 30,
                          'binarize_score')
            if st == 'ok':
                c.i = None
        elif k == 'spoil':
            def fn(c):
                which = o['seed'] % 4
                if which == 0:
                    c.c.event[...] = 0
                elif which == 1:
                    scramble(getattr(c.c, 'score', None))
                elif which == 2:
                    for a in c.arrays:
                        scramble(a)
                    if c.c.event_feature is not None:
                        scramble(c.c.event_feature)
                else:
                    for f in c.c.feature:
                        scramble(f)
                    c.c.n_objects[...] = 1
                    c.c.iid = None
            which = o['seed'] % 4
            st, c = write(t, o, fn, 20, 'overwriting')
            if st == 'ok' and which != 2:
                c.i = None
            R.probe('container overwritten')
        elif k == 'settings':
            with sched.quiet(t):
                for x in w.models:
                    if isinstance(x['ix'], np.ndarray):
                        x['ix'][...] = x['ix'][::-1].copy()
                    elif isinstance(x['ix'], list):
                        x['ix'][:] = [0, 0]
                    if isinstance(x['m'].random_state,
                                  np.random.RandomState):
                        x['m'].random_state.random_sample(3)
                for i in w.options:
                    if o['seed'] % 2:
                        w.options[i]['maxiter'] = 1 + o['seed'] % 5
        elif k == 'query':
            ms = [x for x in w.models if not x['busy']]
            for x in ms[:2]:
                sched.call(t, lambda: x['m'].to_iid_event(np.array(x['rows'])))
        with sched.quiet(t):
            w.check_models(k)

    def body(tid):
        def f(t):
            for o in plan['tasks'][tid]:
                R.mark(tid, o['op'])
                one(t, tid, o)
        return f
    for k in range(len(plan['tasks'])):
        sched.spawn(body(k))
    sched.run()
    w.check_models('all')
    R.ev('final', [x['p']['params'] for x in w.models])
