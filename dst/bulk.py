"""Large containers and requests (C01, C02, C03, C07): sizes beyond those of
small integer types, blocks and buffers, checked with vectorised references.
The plan holds only sizes and a seed."""
import json

import numpy as np

from . import gen as G, models
from .core import Violation, check
from .sched import Sched, count_points

SIZES = [127, 128, 129, 130, 255, 256, 257, 300, 520, 1030, 2050]
HUGE = [4100, 8200, 10001, 32767, 32768, 65535, 65536, 70000]


def generate(rng, idx, tier, focus):
    """A plan for every 120th run, else None; every sixth of them is huge."""
    if idx % 120 != 60:
        return None
    huge = (idx // 120) % 6 == 5
    b = {'n': rng.choice(HUGE if huge else SIZES), 'seed': rng.randrange(10 ** 6),
         'kind': rng.choice(['int', 'int', 'neg', 'big', 'str']),
         'levels': rng.choice([2, 5, 5, 10, 127, 128, 255, 256, 257, 300,
                                1001]),
         'stride': rng.choice([1, 1, 0.5, 0.1, 0.25]),
         'lo': rng.choice([0, 1, -5, -150, 0.5]),
         'order': rng.choice(['shuffled', 'sorted', 'reversed']),
         'feature': rng.random() < 0.6,
         'filters': [[rng.choice(['mask', 'index', 'perm', 'dup', 'tail',
                                  'few']), rng.randrange(10 ** 6)]
                     for _ in range(rng.randint(1, 3))],
         'tasks': 1 if huge else rng.choice([1, 1, 2])}
    f = G.fault(rng, 0.4)
    if f and not huge:
        b['fault'] = f
    return {'bulk': b, 'switches': [] if b['tasks'] == 1 else
            G.switches(rng, rng.randint(5, 30), 1, 3 * b['n'])}


def simplify(plan):
    b = plan['bulk']
    for n in (2, 5, 20, 100, 130, 257, 300, 1030, 2050, 4100, 10001, 33000):
        if n < b['n']:
            c = json.loads(json.dumps(plan))
            c['bulk']['n'] = n
            yield c
    for k in ('fault',):
        if b.get(k):
            c = json.loads(json.dumps(plan))
            del c['bulk'][k]
            yield c
    if b.get('feature'):
        c = json.loads(json.dumps(plan))
        c['bulk']['feature'] = False
        yield c
    if b.get('tasks', 1) > 1:
        c = json.loads(json.dumps(plan))
        c['bulk']['tasks'] = 1
        c['switches'] = []
        yield c


def table(b):
    """(events, scores, domain, number of levels, event features)"""
    r = np.random.RandomState(b['seed'])
    n = b['n']
    ids = np.arange(n)
    if b['kind'] == 'neg':
        ids = ids - n // 2
    elif b['kind'] == 'big':
        ids = ids * 3 + 2 ** 53
    # every object occurs; the second column has far fewer objects
    k = max(1, n // 3)
    m = n + r.randint(0, n)
    u = np.r_[ids, r.choice(ids, m - n)]
    i = r.choice(ids[:k], m)
    if b['order'] == 'shuffled':
        r.shuffle(u)
    elif b['order'] == 'reversed':
        u = u[::-1]
    ev = np.c_[u, i]
    if b['kind'] == 'str':
        ev = np.char.add('o', ev.astype(str))
    lv = b['levels']
    j = r.randint(0, lv, m)
    j[:2] = 0, lv - 1
    sc = np.round(b['lo'] + b['stride'] * j, 6)
    dom = (b['lo'], round(b['lo'] + b['stride'] * (lv - 1), 6), b['stride'])
    ef = np.zeros(m, dtype=[('timestamp', int), ('w', float)])
    ef['timestamp'] = 10 ** 9 + np.arange(m)
    ef['w'] = r.randint(0, 1000, m) / 8.0
    return ev, sc, j, dom, lv, ef


def chosen(cond, m):
    r = np.random.RandomState(cond[1])
    k = cond[0]
    if m == 0:
        return np.zeros(0, dtype=bool), np.zeros(0, dtype=int)
    if k == 'mask':
        a = r.rand(m) < 0.7
        return a, np.flatnonzero(a)
    if k == 'tail':
        a = np.arange(m) >= m // 3
        return a, np.flatnonzero(a)
    if k == 'few':
        a = np.zeros(m, dtype=bool)
        a[r.choice(m, min(m, 40), replace=False)] = True
        return a, np.flatnonzero(a)
    if k == 'index':
        ix = np.sort(r.choice(m, max(1, m // 2), replace=False))
    elif k == 'perm':
        ix = r.permutation(m)
    else:
        ix = r.randint(0, m, m)
    return ix, ix


def feature_of(o, ids, seed):
    """Feature of objects as a function of their ids."""
    h = np.array([hash_(x, o + seed) for x in ids.tolist()], dtype=np.int64)
    return np.c_[h, -h]


def hash_(x, s):
    v = s + 7
    for ch in str(x):
        v = (v * 131 + ord(ch)) % 1000000007
    return v


class Ref(object):
    def __init__(self, ev, sc, j, ef, seed, feature):
        self.ev, self.sc, self.j, self.ef = ev, sc, j, ef
        self.seed, self.feature = seed, feature

    def select(self, ix):
        return Ref(self.ev[ix], self.sc[ix], self.j[ix], self.ef[ix],
                   self.seed, self.feature)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def verify(c, r, b, dom, lv, focus, tag):
    m = len(r.ev)
    check(same([c.n_events], [m]) and c.event.shape == (m, 2), 'ids',
          '%s%d events of shape %r, expected %d', tag, c.n_events,
          c.event.shape, m)
    for o in range(2):
        ids = np.unique(r.ev[:, o])
        check(int(c.n_objects[o]) == len(ids) and len(c.eid[o]) == len(ids)
              and same(np.sort(c.eid[o]), ids), 'ids',
              '%sobjects of type %d are not those of the events', tag, o)
        iid = c.iid[o]
        back = [iid.get(k, -1) for k in c.eid[o].tolist()]
        check(len(iid) == len(ids) and same(back, np.arange(len(ids))), 'ids',
              '%sthe tables of type %d are not inverse of each other', tag, o)
        got = c.eid[o][c.event[:, o]]
        check(same(got, r.ev[:, o]), 'events',
              '%sthe events are not the selected ones', tag)
        if focus == 'C02':
            if r.feature:
                check(same(c.feature[o], feature_of(o, c.eid[o], r.seed)),
                      'features', '%sfeatures of type %d are attached to '
                      'other objects', tag, o)
            else:
                check(c.feature[o] is None, 'features', '%sfeatures from '
                      'nowhere', tag)
    check(same(c.score, r.sc), 'scores', '%sscores are not those of the '
          'events', tag)
    if focus == 'C02':
        check(same(c.event_feature, r.ef), 'event-features',
              '%sevent features are not those of the events', tag)
    if focus == 'C03':
        check(same([float(x) for x in c.score_domain], dom) and
              int(c.n_score_levels) == lv, 'scale',
              '%sdomain %r with %r levels, expected %r with %d', tag,
              c.score_domain, c.n_score_levels, dom, lv)
        ref = dom[0] + dom[2] * np.arange(lv)
        tol = 1e-6 * dom[2]
        got = np.asarray(c.get_score_levels(), dtype=float)
        check(got.shape == (lv,) and np.allclose(got, ref, rtol=0, atol=tol),
              'scale', '%slevels are %r', tag, got)
        bins = np.asarray(c.generate_score_bins(), dtype=float)
        check(bins.shape == (lv + 1,) and
              np.allclose(bins[1:-1], (ref[1:] + ref[:-1]) / 2, rtol=0,
                          atol=tol), 'scale', '%sbins are %r', tag, bins)
        check(same(c.digitize_score(), r.j), 'digitize',
              '%sdigitized scores are not the indexes of their levels', tag)
        x = np.r_[ref + 0.4 * dom[2], ref - 0.4 * dom[2]]
        y = np.r_[np.arange(lv), np.arange(lv)]
        check(same(c.digitize_score(x), y), 'digitize',
              '%sscores near levels are digitized to other levels', tag)


def execute(plan, run, focus):
    from kamrecsys.data import EventWithScoreData
    b = plan['bulk']
    ev, sc, j, dom, lv, ef = table(b)
    trace = b['n'] <= 2100
    sched = Sched(run, plan['switches'], line_points=trace)
    run.probe('large container: %d objects' % b['n'])
    run.mark('bulk', b['n'], b['kind'])
    dom_f = tuple(float(x) for x in dom)

    def do(t, what, fn, armed):
        fault = None
        if armed and b.get('fault'):
            with sched.quiet(t):
                n = count_points(armed)
            if n > 0:
                fault = (1 + int(b['fault']['at'] * n), b['fault']['kind'])
        st, v = sched.call(t, fn, fault)
        run.ev(t.tid, what, st)
        if st == 'exc':
            if fault is None or t.fired is None:
                raise Violation('unexpected-error', '%s raised %r' % (what, v))
            st, v = sched.call(t, fn)
            if st == 'exc':
                raise Violation('unexpected-error', '%s again raised %r'
                                % (what, v))
        return v

    def load(c):
        c.set_event(ev, sc, score_domain=dom, event_feature=ef)

    def feature(c, t):
        for o in range(2):
            ids = c.eid[o]
            ids = ids[np.random.RandomState(b['seed'] + o).permutation(
                len(ids))]
            f = feature_of(o, ids, b['seed'])
            do(t, 'feature', lambda: c.set_feature(o, ids, f), None)

    shared = []

    def first(t):
        c = EventWithScoreData()
        do(t, 'set', lambda: load(c), lambda: load(EventWithScoreData()))
        if b['feature']:
            feature(c, t)
        r = Ref(ev, sc, j, ef, b['seed'], b['feature'])
        with sched.quiet(t):
            verify(c, r, b, dom_f, lv, focus, 'after loading: ')
        shared.append((c, r))

    def client(k):
        def f(t):
            c, r = shared[0]
            for cond in b['filters'][k:] or b['filters'][:1]:
                arg, ix = chosen(cond, len(r.ev))
                c0 = c
                c = do(t, 'filter', lambda: c0.filter_event(arg),
                       lambda: c0.filter_event(arg))
                r = r.select(ix)
                with sched.quiet(t):
                    verify(c, r, b, dom_f, lv, focus, 'after filtering: ')
            if focus == 'C01':
                convert(t, c, r)
            elif focus == 'C03':
                do(t, 'binarize', c.binarize_score, None)
                ref = (r.j > (lv - 1) / 2).astype(int)
                check(same(c.score, ref), 'binarize', 'binarised scores are '
                      'not 0 up to the center')
                check(same(c.score_domain, [0, 1, 1]) and
                      int(c.n_score_levels) == 2, 'scale', 'binarised domain '
                      'is %r with %r levels', c.score_domain,
                      c.n_score_levels)
            with sched.quiet(t):
                verify(shared[0][0], shared[0][1], b, dom_f, lv, focus,
                       'shared container: ')
        return f

    def convert(t, c, r):
        back = do(t, 'to_eid_event', lambda: c.to_eid_event(c.event), None)
        check(same(back, r.ev), 'ids', 'to_eid_event(event) is not the '
              'external events')
        q = r.ev.copy()
        rr = np.random.RandomState(b['seed'] + 1)
        odd = rr.rand(len(q)) < 0.2
        if q.dtype.kind == 'U':
            q = np.where(odd[:, None], np.char.add(q, 'x'), q)
        else:
            q[odd] += 2 ** 32
        fwd = do(t, 'to_iid_event', lambda: c.to_iid_event(q), None)
        want = np.where(odd[:, None], np.array(c.n_objects)[None, :], c.event)
        check(same(fwd, want), 'ids', 'to_iid_event is wrong for large '
              'containers: %r, expected %r', np.asarray(fwd)[:5].tolist(),
              want[:5].tolist())
        for o in range(2):
            n = len(c.eid[o])
            for i in sorted(set([0, n - 1, n // 2, min(n - 1, 127),
                                 min(n - 1, 128), min(n - 1, 255),
                                 min(n - 1, 256), min(n - 1, 32768)])):
                k = c.to_eid(o, i)
                check(c.to_iid(o, k) == i, 'ids', 'to_iid(to_eid(%d)) is %r',
                      i, c.to_iid(o, k))

    s0 = Sched(run, [], line_points=trace)
    whole, sched = sched, s0
    s0.spawn(first)
    s0.run()
    sched = whole
    for k in range(b['tasks']):
        sched.spawn(client(k))
    sched.run()


# --- large requests ------------------------------------------------------------
def generate_requests(rng, idx, tier):
    if idx % 120 != 60:
        return None
    s = models.gen_spec(rng)
    d = models.gen_data(rng, [s['cls']], max_events=14)
    huge = (idx // 120) % 4 == 3
    ns = [rng.choice(HUGE if huge else SIZES + [1000, 1024, 1025, 2048, 2049,
                                                4095, 4097, 5000])
          for _ in range(rng.randint(1, 3))]
    p = {'bulk': {'n': max(ns), 'ns': ns, 'spec': s, 'data': d,
                  'seed': rng.randrange(10 ** 6),
                  'tasks': 1 if huge else rng.choice([1, 2]),
                  'unseen': rng.choice([0, 0.3, 1.0])}}
    if s['cls'] != 'MultinomialPLSA' and rng.random() < 0.6:
        p['bulk']['point'] = {
            'mode': 'point', 'seed': rng.randrange(10 ** 6), 'scale': 1,
            'success': True, 'status': 0, 'message': 'x', 'nit': 1,
            'nfev': 1, 'njev': 1}
    p['switches'] = [] if p['bulk']['tasks'] == 1 else G.switches(
        rng, rng.randint(5, 30), 1, max(ns))
    return p


def simplify_requests(plan):
    ns = plan['bulk']['ns']
    for k in range(len(ns)):
        for n in (2, 20, 130, 300, 1030, 2050, 5000, 10001, 33000):
            if n < ns[k]:
                c = json.loads(json.dumps(plan))
                c['bulk']['ns'][k] = n
                yield c
        if len(ns) > 1:
            c = json.loads(json.dumps(plan))
            del c['bulk']['ns'][k]
            yield c
    if plan['bulk']['tasks'] > 1:
        c = json.loads(json.dumps(plan))
        c['bulk']['tasks'] = 1
        c['switches'] = []
        yield c


def execute_requests(plan, run):
    import random
    from . import seams
    b = plan['bulk']
    d = b['data']
    m = models.make(b['spec'])
    with seams.Optimizer(run, b.get('point')):
        models.fit(m, models.container(d), models.event_index(d))
    served = models.Served(m, d)
    if not all(np.all(np.isfinite(v)) for v in served.P.values()):
        run.probe('training diverged')
        run.ev('diverged')
        return
    rows = models.panel(d, random.Random(b['seed']), 24)
    known = [x for x in rows if None not in served.internal(x)] or rows[:1]
    odd = [x for x in rows if None in served.internal(x)] or rows[-1:]
    before = models.prints(m, rows)
    trace = max(b['ns']) <= 5000
    sched = Sched(run, plan['switches'], line_points=trace)
    run.probe('large request: %d events' % max(b['ns']))
    run.mark('bulk', b['spec']['cls'], b['ns'])

    def body(k):
        def f(t):
            r = np.random.RandomState(b['seed'] + k)
            for n in b['ns']:
                pool = ([rows, known, odd] if b['unseen'] == 0.3 else
                        [known] if b['unseen'] == 0 else [odd])[0]
                pick = r.randint(0, len(pool), n)
                a = np.array(pool)[pick]
                keep = a.copy()
                st, v = sched.call(t, lambda: m.predict(a))
                if st == 'exc':
                    raise Violation('unexpected-error', 'a request for %d '
                                    'events raised %r' % (n, v))
                with sched.quiet(t):
                    v = np.asarray(v, dtype=float)
                    check(v.shape == (n,), 'prediction', 'predictions of %d '
                          'events have shape %r', n, v.shape)
                    check(np.array_equal(a, keep), 'argument',
                          'the request was modified')
                    for q in range(len(pool)):
                        at = np.flatnonzero(pick == q)
                        for x in np.unique(v[at]):
                            p = int(at[np.flatnonzero(v[at] == x)[0]]) if (
                                x == x) else int(at[0])
                            check(served.ok(pool[q], x), 'prediction',
                                  'prediction for %r at position %d of %d is '
                                  '%r, expected %r', pool[q], p, n, float(x),
                                  served.one(pool[q]))
                    run.ev(k, 'request', n)
        return f
    for k in range(b['tasks']):
        sched.spawn(body(k))
    sched.run()
    bad = models.differ(before, models.prints(m, rows))
    check(not bad, 'model-changed', 'a large request changed %s of the model',
          ', '.join(bad))
