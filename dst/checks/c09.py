"""C09: use of the library leaves the settings of the process as they were."""
import importlib
import io
import json
import sys

import numpy as np

from .. import around, env, gen as G, models, sched as S, seams, simio
from ..core import HarnessError, Violation, check
from ..main import Timeout

ID = 'C09'
RUNS = {'quick': 3600, 'thorough': 60000}
RULE = ('random settings of the process (error handling and print options of '
        'numpy, warning filters, logging, environment, working directory, '
        'generators, ...), then a random history of one of the other '
        'checks - containers, trainings, requests, splits, loading, faults '
        'of the optimizer and of devices, unusable data, 1-3 callers that '
        'overlap - or of reports; non-trivial: a fault fired or a context '
        'switch happened')
SHRINK = [('inner', 'switches'), ('inner', 'tasks'), ('inner', 'tasks', 0),
          ('inner', 'tasks', 1), ('inner', 'tasks', 2), ('inner', 'clients')]
COMPONENTS = {'real': ['kamrecsys', 'scipy.optimize', 'sklearn',
                       'io stack of the interpreter'],
              'simulated': ['thread scheduling', 'settings of the process',
                            'failures of the optimizer', 'disk'],
              'stub': []}
ASSUMPTIONS = ['what a caller that is interrupted at a line leaves behind is '
               'not looked at (no program can restore a setting if it is '
               'interrupted just before it does)',
               'warning filters that scipy changes while it calls the '
               'library back are not looked at']

#: histories of other checks and their shares
INNER = [('c01', 1), ('c02', 1), ('c03', 1.5), ('c04', 2.5), ('c05', 2),
         ('c06', 3), ('c07', 2), ('c08', 2), ('c10', 3), ('c11', .7), ('c12', 2.5),
         (None, 4)]
#: histories that do not touch the global generator of numpy
STILL = ('c01', 'c02', 'c03', 'c05', 'c07', 'c08', 'c10', 'c11', None)


def gen(rng, idx, tier):
    k = rng.choices([x[0] for x in INNER], [x[1] for x in INNER])[0]
    a = around.gen(rng, 'C09')
    a.pop('gc', None)
    if rng.random() < .15:
        a['err'] = {x: rng.choice(['raise', 'warn', 'ignore'])
                    for x in ('divide', 'over', 'under', 'invalid')}
    if rng.random() < .1:
        a['filters'] = [rng.choice(['error', 'ignore'])]
    p = {'kind': k, 'settings': a, 'faults': rng.random() < .3}
    if k is None:
        p['inner'] = gen_reports(rng)
    else:
        p['inner'] = _mod(k).gen(rng, 1, tier)
        p['inner'].pop('xproc', None)
    return p


def _mod(k):
    return importlib.import_module('dst.checks.' + k)


def simplify(plan):
    for k in sorted(plan['settings']):
        q = json.loads(json.dumps(plan))
        del q['settings'][k]
        yield q
    if plan['kind'] is not None:
        m = _mod(plan['kind'])
        if hasattr(m, 'simplify'):
            for c in m.simplify(plan['inner']):
                yield dict(plan, inner=c)


class _Warnings(object):
    """What scipy and sklearn use instead of `warnings`: their filters do not
    get out, as they are changed around calls of the library."""

    def __init__(self, real):
        self.real = real

    def __getattr__(self, k):
        return getattr(self.real, k)

    class catch_warnings(object):
        def __init__(self, *a, **kw):
            pass

        def __enter__(self):
            return []

        def __exit__(self, *a):
            return False

    def simplefilter(self, *a, **kw):
        pass

    filterwarnings = simplefilter


def _shim():
    import warnings
    w = _Warnings(warnings)
    old = []
    for n, m in list(sys.modules.items()):
        if n.split('.')[0] in ('scipy', 'sklearn', 'numpy'):
            for k, v in (('warnings', w),
                         ('catch_warnings', w.catch_warnings),
                         ('simplefilter', w.simplefilter),
                         ('filterwarnings', w.filterwarnings)):
                if vars(m).get(k) is getattr(warnings, k, warnings):
                    old.append((m, k, vars(m)[k]))
                    setattr(m, k, v)
    return old


_NP = 'state of the global generator of numpy'


def _npstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


def run(plan, R):
    kind, inner = plan['kind'], plan['inner']
    old = _shim()
    clock = seams.current_clock
    with around.Surroundings(plan['settings']):
        for k in plan['settings']:
            R.fault('surroundings:' + k)
        text = sys.stdout = io.StringIO()
        # an error state belongs to a thread
        S.around = (lambda: np.seterr(**plan['settings'].get('err', {})) and
                    None, lambda old: _thread_end(R, old),
                    lambda p: _files(R, p))
        S.no_trips = not plan['faults']
        before = around.get()
        before[_NP] = _npstate()
        failed = []
        try:
            with env.world():
                if kind is None:
                    reports(inner, R)
                else:
                    _mod(kind).run(inner, R)
        except (Timeout, HarnessError):
            raise
        except Violation as e:
            if e.kind == 'settings-changed':
                raise
            if e.kind == 'global-generator' and not _interrupted(R):
                raise Violation('settings-changed', e.msg)
            # another property, or an odd setting that forbids something
            R.probe('history ended early')
        except BaseException as e:
            if not isinstance(e, Exception) and not isinstance(
                    e, (KeyboardInterrupt, SystemExit)):
                raise
            R.probe('history ended early')
        finally:
            S.around = None
            S.no_trips = False
            simio.current = None
            seams.current_clock = clock
            sys.settrace(None)
            after = around.get()
            after[_NP] = _npstate()
            for m, k, v in old:
                setattr(m, k, v)
        if _interrupted(R):
            R.probe('interrupted at a line')
            return
        if kind not in STILL or inner.get('free'):
            before.pop(_NP)
        if kind in ('c04', 'c06', 'c12'):
            before.pop('generator of random')
        bad = around.differences(before, after)
        check(not bad, 'settings-changed', 'use of the library (%s) has '
              'changed: %s', kind or 'reports', '; '.join(bad))
        check(not text.getvalue(), 'output', 'use of the library (%s) has '
              'written %r to the standard output', kind or 'reports',
              text.getvalue()[:80])
        R.probe('compared')
        R.ev('kept', kind, sorted(plan['settings']))


def _interrupted(R):
    return any(k.startswith('inject:') and not k.endswith(':at-io')
               for k in R.faults)


def _thread_end(R, old):
    a = S.around_state()
    if _interrupted(R):
        return
    bad = [k for k in a if a[k] != old[k]]
    check(not bad, 'settings-changed', 'the settings of the thread of a '
          'caller for %s are %r after its work, they were %r', ', '.join(bad),
          [a[k] for k in bad], [old[k] for k in bad])


def _files(R, p):
    """No file is left open by a process that used the library, and its
    standard input is."""
    if _interrupted(R):
        return
    left = [f for f in p.files if not f.closed and
            f not in (p.stdin, p.stdout)]
    check(not left, 'settings-changed', 'files are left open: %s',
          ', '.join(str(getattr(f, 'name', f)) for f in left))
    check(not p.stdin.closed and not p.stdout.closed, 'settings-changed',
          'a standard stream is closed')
    check(p.cwd == p.first_cwd, 'settings-changed', 'the working directory '
          'has changed from %s to %s', p.first_cwd, p.cwd)
    R.probe('files closed')


# --- reports ----------------------------------------------------------------
def gen_reports(rng):
    n_tasks = rng.choice([1, 2, 2, 3])
    spec = models.gen_spec(rng)
    spec['rs'] = False
    data = models.gen_data(rng, [spec['cls']], max_events=12)
    tasks = []
    for _ in range(n_tasks):
        ops = []
        for _ in range(rng.randint(1, 5)):
            n = rng.randint(1, 9)
            ops.append({
                'op': rng.choice(['sp report', 'sp report', 'if report',
                                  'sp statistics', 'if statistics', 'fit',
                                  'fit', 'shape']),
                'true': [rng.randint(0, 1) for _ in range(n)],
                'pred': [rng.choice([0.5, 1e-12, 1e200, 3, rng.random()])
                         for _ in range(n)],
                'bad': rng.choice([None, None, None, 'nan', 'short',
                                   'empty']),
                'disp': rng.choice([True, False, None])})
        tasks.append(ops)
    return {'tasks': tasks, 'spec': spec, 'data': data,
            'switches': G.switches(rng, rng.randint(3, 20)
                                   if n_tasks > 1 else 0, 1, 30)}


def reports(plan, R):
    import kamrecsys.metrics as km
    sched = S.Sched(R, plan['switches'])
    c = models.container(plan['data'])
    ix = models.event_index(plan['data'])
    rows = np.array(models.panel(plan['data']))
    err = sys.stderr
    sys.stderr = io.StringIO()

    def one(o):
        k, n = o['op'], len(o['true'])
        if k == 'fit':
            m = models.make(plan['spec'])
            models.fit(m, None if o['bad'] == 'empty' else c, ix)
            return m.predict(rows if o['bad'] != 'short' else rows[:, :1])
        if k == 'shape':
            return c.to_iid_event(rows if o['bad'] is None else rows[:, :1])
        t = np.array(o['true'], dtype=float)
        p = np.array(o['pred'], dtype=float)
        if o['bad'] == 'nan':
            p[n // 2] = np.nan
        elif o['bad'] == 'short':
            p = p[:-1]
        elif o['bad'] == 'empty':
            t, p = t[:0], p[:0]
        kw = {} if o['disp'] is None else {'disp': o['disp']}
        if k == 'sp report':
            return km.score_predictor_report(t, p, **kw)
        if k == 'if report':
            return km.item_finder_report(t, p, **kw)
        if k == 'sp statistics':
            return km.score_predictor_statistics(t, p, score_domain=(0, 1, 1))
        return km.item_finder_statistics(t, p)

    def body(ops, tid):
        def f(t):
            for o in ops:
                st, v = sched.call(t, lambda: one(o))
                R.ev(tid, o['op'], o['bad'], st)
                R.mark(tid, o['op'])
                if st != 'ok':
                    R.fault('operation refused')
        return f
    try:
        for i, ops in enumerate(plan['tasks']):
            sched.spawn(body(ops, i))
        sched.run()
    finally:
        sys.stderr = err
