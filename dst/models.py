"""Recommenders in simulated runs: settings, training, observation and an
independent reading of what a trained model must predict."""
import copy
import math

import numpy as np

from . import gen, refs
from .core import check, dig

SP = ['PMF', 'MultinomialPLSA']
IF = ['LogisticPMF', 'ImplicitLogisticPMF']
PMFS = ['PMF', 'LogisticPMF', 'ImplicitLogisticPMF']


def cls_of(name):
    import kamrecsys.item_finder as itf
    import kamrecsys.score_predictor as sp
    return getattr(sp if name in SP else itf, name)


# --- plans -----------------------------------------------------------------
def gen_spec(rng, names=None, seed=None):
    name = rng.choice(names or SP + IF)
    if seed is None:
        seed = rng.choice([rng.randrange(10 ** 6)] * 9 + [
            0, 0, 1, 2 ** 31, 2 ** 32 - 1])
    s = {'cls': name, 'seed': seed}
    if name == 'MultinomialPLSA':
        s.update(k=rng.choice([1, 2, 2, 3, 4]),
                 alpha=rng.choice([1.0, 0.5, 0.1, 2.0, 1e-3]),
                 use_expectation=rng.random() < 0.6,
                 maxiter=rng.choice([0, 1, 2, 3, 8, 15]),
                 tol=rng.choice([1e-10, 1e-4, 1e-2, 0.0]))
        if rng.random() < 0.1:
            del s['tol']
    else:
        s.update(k=rng.choice([1, 1, 2, 3]),
                 C=rng.choice([1.0, 0.1, 0.01, 3.0, 10]),
                 maxiter=rng.choice([0, 1, 2, 4, 8, 12]))
        r = rng.random()
        if r < 0.2:
            s['method'] = rng.choice(['BFGS', 'L-BFGS-B', 'CG', 'TNC',
                                      'SLSQP', 'Powell', 'Nelder-Mead'])
            if s['method'] in ('TNC', 'Powell'):
                s['maxiter'] = 2
        if rng.random() < 0.4:
            s['tol'] = rng.choice([1e-5, 1e-2, 1e-1])
        if rng.random() < 0.35:
            # settings in an object of the caller
            s['options'] = {'maxiter': s.pop('maxiter')}
            if rng.random() < 0.5:
                s['options']['gtol'] = rng.choice([1e-3, 1e-5])
    if rng.random() < 0.03:
        s['k'] = rng.choice([5, 9])
    for k, v in DEFAULTS.items():
        # settings that are not given
        if k not in ('maxiter', 'tol') and k in s and rng.random() < 0.12:
            s[k] = v
            s['omit'] = s.get('omit', []) + [k]
    if name == 'MultinomialPLSA' and rng.random() < 0.04:
        s['maxiter'] = 100
        s['omit'] = s.get('omit', []) + ['maxiter']
    if name == 'MultinomialPLSA' and rng.random() < 0.08:
        s['tol'] = 1e-10
        s['omit'] = s.get('omit', []) + ['tol']
    return s


#: documented values of settings that are not given
DEFAULTS = {'k': 1, 'C': 1.0, 'alpha': 1.0, 'use_expectation': True,
            'maxiter': 100, 'tol': 1e-10}


def large(rng, specs):
    """Sizes of large data for the specs, which are trained briefly."""
    for s in specs:
        if s.get('method') not in (None, 'CG', 'L-BFGS-B'):
            del s['method']
        n = rng.choice([0, 1, 2])
        if 'options' in s:
            s['options']['maxiter'] = n
        else:
            s['maxiter'] = n
            if 'maxiter' in s.get('omit', ()):
                s['omit'].remove('maxiter')
        if rng.random() < .3:
            s['k'] = rng.choice([5, 9, 17])
            if 'k' in s.get('omit', ()):
                s['omit'].remove('k')
    n = rng.choice([140, 270, 300, 600])
    return {'max_events': n, 'min_events': n,
            'max_objects': n // rng.choice([2, 3, 10])}


def gen_data(rng, spec_names, small=True, wide=None, kind=None,
             max_events=12, max_objects=5, min_events=3):
    """Data usable for all the named models."""
    binary = 'LogisticPMF' in spec_names
    scored = any(n != 'ImplicitLogisticPMF' for n in spec_names) or \
        rng.random() < 0.5
    wide = rng.random() < 0.35 if wide is None else wide
    if wide:
        n_otypes = rng.choice([2, 2, 3])
        otypes = list(range(n_otypes))
        for _ in range(rng.randint(1, 2)):
            otypes.append(rng.randrange(n_otypes))
        rng.shuffle(otypes)
    else:
        n_otypes, otypes = 2, None
    d = gen.dataset(rng, max_events=max_events, max_objects=max_objects,
                    n_otypes=n_otypes, otypes=otypes, scored=scored,
                    binary=binary, min_events=min_events, auto_domain=False,
                    kind=kind)
    if wide:
        if rng.random() < 0.85:
            # otherwise the first two elements
            d['index'] = rng.sample(range(len(otypes)), 2)
            d['index_kind'] = rng.choice(['list', 'tuple', 'array'])
    return d


def container(d):
    """Container of a data plan."""
    from kamrecsys.data import EventData, EventWithScoreData
    scored = 'sc' in d
    cls = EventWithScoreData if scored else EventData
    c = cls(n_otypes=d['n_otypes'], event_otypes=d['otypes'])
    if scored:
        c.set_event(gen.ev_array(d), gen.sc_array(d),
                    score_domain=list(d['domain']),
                    event_feature=gen.ef_array(d))
    else:
        c.set_event(gen.ev_array(d), event_feature=gen.ef_array(d))
    for o in range(d['n_otypes']):
        if str(o) in d.get('of', {}):
            e, f = gen.of_arrays(d, o)
            c.set_feature(o, e, f)
    return c


def event_index(d):
    """The event_index argument of a data plan (None: default)."""
    if 'index' not in d:
        return None
    k = d.get('index_kind', 'list')
    return (list(d['index']) if k == 'list' else tuple(d['index'])
            if k == 'tuple' else np.array(d['index']))


def make(spec, options=None):
    """Recommender of a spec; `options` is the caller's dict to be passed."""
    kw = {k: v for k, v in spec.items()
          if k not in ('cls', 'seed', 'options', 'rs', 'omit') and
          not (k in spec.get('omit', ()) and v == DEFAULTS[k])}
    if 'options' in spec:
        kw['options'] = dict(spec['options']) if options is None else options
    rs = spec['seed']
    if spec.get('rs'):
        rs = np.random.RandomState(rs)
    return cls_of(spec['cls'])(random_state=rs, **kw)


def fit(m, c, index=None):
    if index is None:
        return m.fit(c)
    return m.fit(c, event_index=index)


NAMES = {'MultinomialPLSA': ['pZ_', 'pXgZ_', 'pYgZ_', 'pRgZ_', 'score_levels']}
PNAMES = ['mu_', 'bu_', 'bi_', 'p_', 'q_']


def params(m):
    return {k: np.array(getattr(m, k)) for k in
            NAMES.get(type(m).__name__, PNAMES)}


def panel(d, rng=None, n=6):
    """Events (external ids of all elements) to ask a model about."""
    import random
    rng = rng or random.Random(7)
    ot = list(range(d['n_otypes'])) if d['otypes'] is None else d['otypes']
    pools = {}
    for row in d['ev']:
        for e, x in enumerate(row):
            pools.setdefault(ot[e], set()).add(x)
    pools = {o: sorted(p) for o, p in pools.items()}
    unk = ['??', 'no such'] if d['kind'] == 'str' else [-12345, 10 ** 8]
    if rng.random() < 0.5:
        unk = unk + gen.strangers(rng, sorted(set(
            x for p in pools.values() for x in p)))
    rows = []
    for _ in range(n):
        row = []
        for o in ot:
            p = pools.get(o)
            row.append(rng.choice(p) if p and rng.random() < 0.75
                       else rng.choice(unk))
        rows.append(row)
    rows[0] = list(d['ev'][0])
    return rows


def prints(m, rows):
    """Everything observable of a trained model: (digests by part)."""
    a = np.array(rows)
    pr = np.array(m.predict(a))
    return {'params': dig(params(m)), 'pred': dig(pr),
            'report': dig(m.fit_results_),
            'ids': dig([[list(e) for e in m.eid],
                        [sorted((refs.py(k), int(v)) for k, v in t.items())
                         for t in m.iid]])}


def differ(a, b):
    return [k for k in sorted(a) if a[k] != b.get(k)]


# --- independent prediction ----------------------------------------------------
class Served(object):
    """What a trained model must answer, from its public parameters."""

    def __init__(self, m, d):
        self.cls = type(m).__name__
        self.P = params(m)
        self.use_expectation = getattr(m, 'use_expectation', True)
        self.ot = (list(range(d['n_otypes'])) if d['otypes'] is None
                   else list(d['otypes']))
        self.index = d.get('index', [0, 1])
        self.maps = {}
        for o in range(d['n_otypes']):
            self.maps[o] = {refs.py(k): i for i, k in enumerate(m.eid[o])}
        self.domain = d.get('domain')

    def internal(self, row):
        """(user, item) internal ids, None for unknown ones."""
        out = []
        for e in self.index:
            out.append(self.maps[self.ot[e]].get(refs.py(row[e])))
        return out

    def one(self, row):
        """Set of acceptable predictions for an event."""
        u, i = self.internal(row)
        P = self.P
        if self.cls != 'MultinomialPLSA':
            z = float(P['mu_'][0])
            if u is not None:
                z += float(P['bu_'][u])
            if i is not None:
                z += float(P['bi_'][i])
            if u is not None and i is not None:
                z += float(sum(float(a) * float(b) for a, b in
                               zip(P['p_'][u], P['q_'][i])))
            if self.cls == 'PMF':
                return [z]
            lim = 34.538776394910684
            z = min(lim, max(-lim, z))
            return [1.0 / (1.0 + math.exp(-z))]
        k = P['pZ_'].shape[0]
        pr = []
        for r in range(P['pRgZ_'].shape[0]):
            s = 0.0
            for z in range(k):
                t = float(P['pZ_'][z]) * float(P['pRgZ_'][r, z])
                if u is not None:
                    t *= float(P['pXgZ_'][u, z])
                if i is not None:
                    t *= float(P['pYgZ_'][i, z])
                s += t
            pr.append(s)
        tot = sum(pr)
        pr = [x / tot for x in pr]
        lv = [float(x) for x in P['score_levels']]
        if self.use_expectation:
            return [sum(a * b for a, b in zip(pr, lv))]
        top = max(pr)
        return [lv[r] for r in range(len(pr)) if pr[r] >= top - 1e-9]

    def ok(self, row, v):
        v = float(v)
        if math.isnan(v):
            return False
        for w in self.one(row):
            if abs(v - w) <= 1e-9 * max(1.0, abs(w)):
                return True
        return False

    def check(self, rows, got, tag=''):
        got = np.ravel(np.asarray(got, dtype=float))
        check(len(got) == len(rows), 'prediction',
              '%s%d predictions for %d events', tag, len(got), len(rows))
        for r, v in zip(rows, got):
            check(self.ok(r, v), 'prediction',
                  '%sprediction for %r is %r, expected %r', tag, r, float(v),
                  self.one(r))
            if self.cls in IF:
                check(0.0 < v < 1.0, 'range', '%sprediction %r for %r', tag,
                      float(v), r)
            elif self.cls == 'MultinomialPLSA':
                lv = self.P['score_levels']
                tol = 1e-9 * max(1, abs(lv[0]), abs(lv[-1]))
                check(lv[0] - tol <= v <= lv[-1] + tol, 'range',
                      '%sprediction %r for %r outside of %r', tag, float(v),
                      r, [float(lv[0]), float(lv[-1])])


def learned_differences(a, b, rtol=0):
    out = []
    for k in a:
        if a[k].shape != b[k].shape or not (
                np.array_equal(a[k], b[k], equal_nan=True) if rtol == 0 else
                np.allclose(a[k], b[k], rtol=rtol, atol=rtol,
                            equal_nan=True)):
            out.append(k)
    return out
