"""C08: training report and learned parameters match what training did."""
import json
import math

import numpy as np

from .. import gen as G, models, refs, seams
from ..core import Violation, check, dig
from ..sched import Sched

ID = 'C08'
RUNS = {'quick': 8000, 'thorough': 60000}
RULE = ('trainings of 1-2 interleaved callers with an optimizer that works, '
        'stops early, fails, or returns an arbitrary point with an arbitrary '
        'status; the objective, gradient and settings handed to it are '
        'compared with independent ones, and the report and the learned '
        'parameters with what it returned; topic models are followed through '
        'every EM iteration; non-trivial: a fault fired or a context switch '
        'happened')
SHRINK = [('switches',), ('fits',)]
COMPONENTS = {'real': ['kamrecsys.score_predictor', 'kamrecsys.item_finder',
                       'kamrecsys.data', 'scipy.optimize in part of the runs'],
              'simulated': ['thread scheduling', 'results of the optimizer'],
              'stub': ['the optimizer in part of the runs']}
ASSUMPTIONS = ['gradients are compared with differences of the objective, to '
               'a relative tolerance of 1e-4, away from the clipping of the '
               'sigmoid']


def gen(rng, idx, tier):
    fits = []
    large = idx % 100 == 50
    for _ in range(1 if large else rng.choice([1, 1, 2])):
        s = models.gen_spec(rng)
        if s['cls'] == 'MultinomialPLSA':
            if large or 'maxiter' not in s.get('omit', []):
                s['maxiter'] = rng.choice([0, 1, 2, 3, 5, 9] + [25] * (
                    not large))
            if 'tol' not in s.get('omit', []):
                s['tol'] = rng.choice([-1.0, -1.0, 0.0, 1e-2, 1e-3, 1e-1, 0.5])
        if s['cls'] == 'MultinomialPLSA' and not large and \
                rng.random() < .1:
            s.update(maxiter=100, tol=1e-10)
            s['omit'] = sorted(set(s.get('omit', []) + ['maxiter', 'tol']))
        if large:
            if s.get('method') not in (None, 'CG', 'L-BFGS-B'):
                # the number of calls grows with the number of parameters
                del s['method']
            n = rng.choice([140, 270, 300, 600, 1100])
            d = models.gen_data(rng, [s['cls']], max_events=n, min_events=n,
                                max_objects=n // rng.choice([2, 3, 10]))
        else:
            d = models.gen_data(rng, [s['cls']], max_events=16)
        x = {'spec': s, 'data': d, 'opt': {'mode': 'real'}}
        if s['cls'] != 'MultinomialPLSA':
            r = rng.random()
            if r < 0.5:
                st = rng.random() < 0.5
                x['opt'] = {
                    'mode': 'point', 'seed': rng.randrange(10 ** 6),
                    'scale': rng.choice([0, 0.1, 0.3, 1, 2]),
                    'success': st, 'status': 0 if st else
                    rng.choice([1, 2, 3, 9, -4]),
                    'message': rng.choice(['', 'Line search failed', 'NaN',
                                           'Optimization terminated.']),
                    'nit': rng.choice([None, 0, 1, 17, 10 ** 6]),
                    'nfev': rng.choice([0, 1, 23]),
                    'njev': rng.choice([None, 0, 1, 23])}
            elif r < 0.7:
                x['opt'] = {'mode': 'early', 'maxiter': rng.choice([0, 1, 2])}
        if rng.random() < 0.2:
            x['other'] = rng.choice(['before', 'after'])
        r = rng.random()
        if r < 0.15:
            x['again'] = True
        elif r < 0.45:
            # the object was trained on something else before
            x['pre'] = {'data': models.gen_data(rng, [s['cls']],
                                                max_events=10),
                        'opt': {'mode': 'real'}}
            if s['cls'] != 'MultinomialPLSA' and rng.random() < 0.7:
                x['pre']['opt'] = {
                    'mode': 'point', 'seed': rng.randrange(10 ** 6),
                    'scale': 1, 'success': False, 'status': 2,
                    'message': 'earlier failure', 'nit': 3, 'nfev': 4,
                    'njev': 5}
        fits.append(x)
    return {'fits': fits, 'switches': G.switches(
        rng, rng.randint(3, 18) if len(fits) > 1 else 0, 1, 300)}


def simplify(plan):
    for i, x in enumerate(plan['fits']):
        n = len(x['data']['ev'])
        if n > 3:
            for j in range(n):
                c = json.loads(json.dumps(plan))
                del c['fits'][i]['data']['ev'][j]
                if 'sc' in x['data']:
                    del c['fits'][i]['data']['sc'][j]
                yield c
        for k in ('ef', 'of'):
            if k in x['data']:
                c = json.loads(json.dumps(plan))
                del c['fits'][i]['data'][k]
                yield c
        for k in ('again', 'pre', 'other'):
            if x.get(k):
                c = json.loads(json.dumps(plan))
                del c['fits'][i][k]
                yield c


def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = float(a), float(b)
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def pairs(served, d):
    """Training events as pairs of numbers of the model's tables."""
    return [tuple(served.internal(r)) for r in d['ev']]


LIM = 34.538776394910684


def sig(z):
    z = min(LIM, max(-LIM, z))
    return 1.0 / (1.0 + math.exp(-z))


def objective(cls, P, C, uv, sc):
    """The stated objective at the parameters P."""
    def z(u, i):
        return (float(P['mu_'][0]) + float(P['bu_'][u]) +
                float(P['bi_'][i]) + float(np.dot(P['p_'][u], P['q_'][i])))
    loss = 0.0
    if cls == 'PMF':
        for (u, i), s in zip(uv, sc):
            loss += 0.5 * (s - z(u, i)) ** 2
    elif cls == 'LogisticPMF':
        for (u, i), s in zip(uv, sc):
            p = sig(z(u, i))
            loss -= s * math.log(p) + (1 - s) * math.log(1 - p)
    else:
        pos = set(uv)
        for u in range(len(P['bu_'])):
            for i in range(len(P['bi_'])):
                p = sig(z(u, i))
                loss -= math.log(p) if (u, i) in pos else math.log(1 - p)
    reg = sum(float(np.sum(P[k] ** 2)) for k in ('bu_', 'bi_', 'p_', 'q_'))
    return loss + 0.5 * C * reg


def same_report(got, want, name):
    if want is None:
        return
    check(type(got) in (bool, np.bool_) and bool(got) == want
          if isinstance(want, bool) else got == want, 'report',
          '%s is reported as %r instead of %r', name, got, want)


def check_factor(x, m, opt, R):
    spec, d = x['spec'], x['data']
    cls = spec['cls']
    s = models.Served(m, d)
    nu = len(m.eid[s.ot[s.index[0]]])
    ni = len(m.eid[s.ot[s.index[1]]])
    k = spec['k']
    rep = m.fit_results_
    check(len(opt.calls) == 1, 'optimizer', 'the optimizer was called %d '
          'times', len(opt.calls))
    rec = opt.calls[0]
    res = rec['res']

    # settings
    method = spec.get('method', 'CG')
    check(rec['method'] == method, 'settings', 'the optimizer was told to use '
          '%r instead of %r', rec['method'], method)
    check(rec['rest'].get('tol') == spec.get('tol'), 'settings',
          'the optimizer got tol=%r instead of %r', rec['rest'].get('tol'),
          spec.get('tol'))
    want = dict(spec.get('options', {}))
    if 'maxiter' in spec:
        want['maxiter'] = spec['maxiter']
    for key in want:
        check(rec['options'].get(key) == want[key], 'settings',
              'the optimizer got %s=%r instead of %r', key,
              rec['options'].get(key), want[key])
    check(rec['options'].get('maxiter') == want.get('maxiter'), 'settings',
          'the optimizer got maxiter=%r instead of %r',
          rec['options'].get('maxiter'), want.get('maxiter'))
    for key in ('bounds', 'constraints', 'callback'):
        check(not rec['rest'].get(key), 'settings',
              'the optimizer got %s=%r', key, rec['rest'].get(key))

    # parameters
    P = models.params(m)
    npar = 1 + nu + ni + k * (nu + ni)
    check(len(rec['x0']) == npar, 'parameters', '%d parameters were '
          'optimized, expected %d', len(rec['x0']), npar)
    check(P['mu_'].shape == (1,) and P['bu_'].shape == (nu + 1,) and
          P['bi_'].shape == (ni + 1,) and P['p_'].shape == (nu + 1, k) and
          P['q_'].shape == (ni + 1, k), 'parameters', 'shapes are %r',
          {a: b.shape for a, b in P.items()})
    for a in ('bu_', 'bi_', 'p_', 'q_'):
        check(np.all(P[a][-1] == 0), 'parameters',
              '%s of an unknown object is %r', a, P[a][-1])
    L = {a: (b if a == 'mu_' else b[:-1]) for a, b in P.items()}
    held = np.sort(np.concatenate([v.ravel() for v in L.values()]))
    check(np.array_equal(held, np.sort(rec['x']), equal_nan=True),
          'parameters', 'the model does not hold what the optimizer returned')
    if not np.all(np.isfinite(held)):
        R.probe('not finite')
        return

    # objective
    uv = pairs(s, d)
    check(all(u is not None and i is not None for u, i in uv), 'parameters',
          'objects of training are unknown to the model')
    C = float(spec['C'])
    sc = d.get('sc')
    want_f = objective(cls, L, C, uv, sc)

    f1, f0 = rec['f'], rec['f0']
    check(close(f1, want_f), 'objective', 'the objective handed to the '
          'optimizer is %r at parameters where the stated one is %r', f1,
          want_f)
    check(close(rep['initial_loss'], f0), 'report', 'initial loss is reported '
          'as %r instead of %r', rep['initial_loss'], f0)
    check(close(rep['final_loss'], want_f), 'report', 'final loss is reported '
          'as %r instead of %r', rep['final_loss'], want_f)

    # gradient
    for v, fv, g, nums in rec['grads']:
        if cls != 'PMF' and bound(L, v) > 25:
            R.probe('gradient not compared near the clipping')
            continue
        check(g.shape == (npar,), 'gradient', 'shape of the gradient is %r',
              g.shape)
        for u, num in nums:
            ana = float(np.dot(g, u))
            scale = max(1.0, np.linalg.norm(g), abs(fv) * 1e-3)
            check(abs(num - ana) <= 1e-4 * scale, 'gradient',
                  'derivative handed to the optimizer is %r, that of the '
                  'objective is %r', ana, num)
        R.probe('gradient compared')

    # report
    for key, val in (('n_users', nu), ('n_items', ni),
                     ('n_events', len(d['ev'])), ('n_parameters', npar),
                     ('success', bool(res.success)), ('status', res.status),
                     ('message', res.message),
                     ('n_iterations', res.get('nit')),
                     ('func_calls', res.nfev),
                     ('grad_calls', res.get('njev')),
                     ('optimizer_method', method)):
        check(key in rep, 'report', '%s is not reported', key)
        same_report(rep[key], val, key)


def inspector(sched, t):
    """Evaluates the objective and gradient that the optimizer was given."""
    def inspect(rec):
        with sched.quiet(t):
            def F(v):
                f = rec['fun'](np.array(v, dtype=float), *rec['args'])
                return float(f[0] if rec['jac'] is True else f)

            def dF(v):
                if rec['jac'] is True:
                    return rec['fun'](np.array(v), *rec['args'])[1]
                return rec['jac'](np.array(v), *rec['args'])
            rec['f'], rec['f0'] = F(rec['x']), F(rec['x0'])
            rec['grads'] = []
            if not (rec['jac'] is True or callable(rec['jac'])) or \
                    not np.all(np.isfinite(rec['x'])):
                return
            npar = len(rec['x0'])
            r = np.random.RandomState(17)
            for v in (rec['x'], rec['x0'] + r.normal(0, 0.2, npar)):
                g = np.array(dF(v), dtype=float)
                nums = []
                for q in range(4):
                    u = np.zeros(npar)
                    if q < 2:
                        u = r.normal(0, 1, npar)
                    else:
                        u[r.randint(npar)] = 1.0
                    u /= np.linalg.norm(u)
                    h = 1e-3
                    nums.append((u, (
                        8 * (F(v + h * u) - F(v - h * u)) -
                        (F(v + 2 * h * u) - F(v - 2 * h * u))) / (12 * h)))
                rec['grads'].append((v, F(v), g, nums))
    return inspect


def bound(L, v):
    """Crude bound of the linear scores near the point v."""
    a = np.max(np.abs(v)) + 0.1
    k = L['p_'].shape[1]
    return 3 * a + k * a * a


# --- topic model -----------------------------------------------------------
def em(P, uvs, alpha, n):
    """One smoothed EM update."""
    nu, ni, nr = n
    k = len(P['pZ'])
    X = np.full((nu, k), float(alpha))
    Y = np.full((ni, k), float(alpha))
    Rr = np.full((nr, k), float(alpha))
    Z = np.full(k, float(alpha))
    for u, i, s in uvs:
        q = P['pZ'] * P['pR'][s] * P['pX'][u] * P['pY'][i]
        q = q / q.sum()
        X[u] += q
        Y[i] += q
        Rr[s] += q
        Z += q
    return {'pX': X / X.sum(axis=0), 'pY': Y / Y.sum(axis=0),
            'pR': Rr / Rr.sum(axis=0), 'pZ': Z / Z.sum()}


def nll(P, uvs):
    t = 0.0
    for u, i, s in uvs:
        t -= math.log(float(np.sum(
            P['pZ'] * P['pR'][s] * P['pX'][u] * P['pY'][i])))
    return t / len(uvs)


def learned(m, n):
    P = models.params(m)
    nu, ni, nr = n
    k = P['pZ_'].shape[0]
    check(P['pXgZ_'].shape == (nu + 1, k) and P['pYgZ_'].shape == (ni + 1, k)
          and P['pRgZ_'].shape == (nr, k), 'parameters', 'shapes are %r',
          {a: b.shape for a, b in P.items()})
    L = {'pZ': P['pZ_'], 'pR': P['pRgZ_'], 'pX': P['pXgZ_'][:-1],
         'pY': P['pYgZ_'][:-1]}
    for a, v in L.items():
        check(np.all(np.isfinite(v)) and np.all(v >= 0) and
              np.allclose(v.sum(axis=0), 1.0, rtol=0, atol=1e-9),
              'normalisation', '%s is not normalised: sums are %r', a,
              v.sum(axis=0))
    return L


def same_params(a, b):
    return all(np.allclose(a[q], b[q], rtol=1e-7, atol=1e-12) for q in a)


def check_topic(x, m, c, R):
    spec, d = x['spec'], x['data']
    s = models.Served(m, d)
    dom = d['domain']
    nr = int(round((dom[1] - dom[0]) / dom[2])) + 1
    nu = len(m.eid[s.ot[s.index[0]]])
    ni = len(m.eid[s.ot[s.index[1]]])
    n = (nu, ni, nr)
    uvs = []
    for (u, i), v in zip(pairs(s, d), d['sc']):
        uvs.append((u, i, min(refs.ref_digitize(float(v), dom, nr))))
    rep = m.fit_results_
    L = learned(m, n)
    k = spec['k']
    alpha = spec['alpha']

    # the same training with fewer permitted iterations
    start = models.make(dict(spec, maxiter=0, omit=[
        q for q in spec.get('omit', []) if q != 'maxiter']))
    models.fit(start, c, models.event_index(d))
    Ps = [learned(start, n)]
    losses = [nll(Ps[0], uvs)]
    tol = spec.get('tol', 1e-10)
    maxiter = spec['maxiter']
    stop, doubtful = None, False
    for j in range(maxiter):
        Ps.append(em(Ps[-1], uvs, alpha, n))
        losses.append(nll(Ps[-1], uvs))
        prec = abs((losses[-1] - losses[-2]) / losses[-1])
        if abs(prec - tol) <= 1e-6 * abs(tol) + 1e-12:
            doubtful = True
            break
        if prec < tol:
            stop = j + 1
            break
    want = 'successful' if rep['success'] else 'iterations'
    check(want in str(rep.get('message')), 'report', 'the message of a '
          'training with success %r is %r', rep['success'],
          rep.get('message'))
    if doubtful:
        R.probe('stopping is within rounding errors')
    got_n = rep['n_iterations']
    check(close(rep['initial_loss'], losses[0]), 'report', 'initial loss is '
          'reported as %r instead of %r', rep['initial_loss'], losses[0])
    check(close(rep['final_loss'], nll(L, uvs)), 'report', 'final loss is '
          'reported as %r, that of the learned model is %r',
          rep['final_loss'], nll(L, uvs))
    if not doubtful:
        want = stop if stop is not None else maxiter
        check(got_n == want, 'report', '%r iterations are reported instead '
              'of %d', got_n, want)
        check(same_params(L, Ps[want]), 'em', 'the learned parameters are '
              'not those after %d EM updates', want)
        check(bool(rep['success']) == (stop is not None), 'report',
              'success is reported as %r, tolerance was reached: %r',
              rep['success'], stop is not None)
        check((rep['status'] == 0) == (stop is not None), 'report',
              'status is reported as %r, tolerance was reached: %r',
              rep['status'], stop is not None)
        if stop is not None:
            R.probe('tolerance reached')
    for key, val in (('n_users', nu), ('n_items', ni),
                     ('n_events', len(d['ev'])),
                     ('n_parameters', k + k * nu + k * ni + k * nr)):
        check(key in rep, 'report', '%s is not reported', key)
        same_report(rep[key], val, key)


def check_matrix(x, m, c, ix, R):
    """The matrix of implicit feedback, in every format."""
    from scipy.sparse import issparse
    from kamrecsys.item_finder.base import BaseImplicitItemFinder

    class Probe(BaseImplicitItemFinder):
        def raw_predict(self, ev):
            raise NotImplementedError
    p = Probe()
    models.fit(p, c, (0, 1) if ix is None else ix)
    s = models.Served(m, x['data'])
    n = [len(m.eid[s.ot[s.index[e]]]) for e in (0, 1)]
    want = np.zeros(n)
    for u, i in pairs(s, x['data']):
        want[u, i] = 1
    for fmt in ('csr', 'csc', 'lil', 'array', None):
        a, sizes = (p.get_event_array(fmt) if fmt else p.get_event_array())
        check(issparse(a) == (fmt != 'array'), 'matrix', 'format %s is %r',
              fmt, type(a))
        check(fmt == 'array' or a.format == (fmt or 'csr'), 'matrix',
              'format %s is %r', fmt, getattr(a, 'format', None))
        check([int(v) for v in sizes] == n, 'matrix', 'sizes of the matrix '
              'are %r, expected %r', sizes, n)
        a = a.toarray() if issparse(a) else np.asarray(a)
        check(a.shape == want.shape and np.array_equal(a, want), 'matrix',
              'the %s matrix of implicit feedback is %r, expected %r', fmt,
              a.tolist()[:5], want.tolist()[:5])
    R.probe('matrix of implicit feedback')


def neighbour(spec, R):
    """Another recommender, whose settings are changed later."""
    m = models.cls_of(spec['cls'])(random_state=5)
    kw = getattr(m, 'optimizer_kwargs', None)
    if isinstance(kw, dict):
        kw['maxiter'] = 1
        kw['tol'] = 0.7
        kw['options'] = {'maxiter': 2}
        R.probe('settings of another recommender changed')
    for k in ('k', 'C', 'alpha', 'use_expectation'):
        if hasattr(m, k):
            setattr(m, k, 3)


def run(plan, R):
    sched = Sched(R, plan['switches'])

    def body(i):
        def f(t):
            x = plan['fits'][i]
            with sched.quiet(t):
                if x.get('other') == 'before':
                    neighbour(x['spec'], R)
                m = models.make(x['spec'])
                if x.get('other') == 'after':
                    neighbour(x['spec'], R)
                c = models.container(x['data'])
                ix = models.event_index(x['data'])
                if x.get('again'):
                    models.fit(m, c, ix)
                if x.get('pre'):
                    pd = x['pre']['data']
                    with seams.Optimizer(R, x['pre']['opt']):
                        models.fit(m, models.container(pd),
                                   models.event_index(pd))
            opt = seams.Optimizer(R, x['opt'], inspector(sched, t))

            def go():
                with opt:
                    models.fit(m, c, ix)
            st, v = sched.call(t, go)
            if st == 'exc':
                raise Violation('unexpected-error', 'training raised %r'
                                % (v,))
            with sched.quiet(t):
                R.mark(i, x['spec']['cls'], x['opt']['mode'])
                R.ev(i, 'fit', dig(models.params(m)), dig(m.fit_results_))
                if x['spec']['cls'] == 'MultinomialPLSA':
                    check_topic(x, m, c, R)
                else:
                    check_factor(x, m, opt, R)
                    if x['spec']['cls'] not in ('PMF', 'LogisticPMF'):
                        check_matrix(x, m, c, ix, R)
        return f
    for i in range(len(plan['fits'])):
        sched.spawn(body(i))
    sched.run()
