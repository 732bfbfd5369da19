"""C16: recorded times are those of the phase they describe."""
import contextlib
import datetime
import json

from .. import exps, gen as G, procs, seams, simio
from ..core import Violation, check, dig

ID = 'C16'
RUNS = {'quick': 8000, 'thorough': 60000}
RULE = ('1-2 random experiments (hold-out, cross-validation or one fold) '
        'under simulated clocks: every training, prediction, '
        'filtering of data and I/O operation takes a planned wall and user '
        'time, clocks tick at planned rates, and the wall clock jumps '
        'forward or backward inside, between and at the readings of '
        'phases; non-trivial: the wall clock jumped or a context switch '
        'happened')
SHRINK = [('switches',), ('runs',), ('runs', '*', 'jumps'),
          ('runs', '*', 'costs')]
COMPONENTS = {'real': ['scripts/exp_recsys_sp.py', 'scripts/exp_recsys_if.py',
                       'scripts/exp_recsys_util.py',
                       'kamrecsys',
                       'io stack of the interpreter', 'argparse', 'json',
                       'numpy', 'scipy.optimize', 'sklearn'],
              'simulated': ['wall clock', 'CPU clock', 'disk', 'processes',
                            'scheduling'],
              'stub': ['/bin/cat /proc/cpuinfo']}
ASSUMPTIONS = ['the first and last computation of a phase is the call of '
               'fit or predict of the model']
US = [0, 1, 999, 1000, 250000, 999999, 1000000, 59999999, 3600000000,
      86400000000]


def span(rng):
    return rng.choice(US) if rng.random() < 0.5 else rng.randrange(
        1, 10 ** rng.randint(1, 10))


def jump(rng):
    return rng.choice([-1, 1]) * span(rng)


def gen(rng, idx, tier):
    runs = []
    for _ in range(rng.choice([1, 1, 2])):
        e = exps.gen_exp(rng, max_users=3, max_events=12,
                         folds=rng.choice([1, 2, 3, 4]))
        e['opts']['maxiter'] = rng.choice([1, 2])
        d = exps.gen_delivery(rng, e['scheme'])
        d['io'] = {'delay': [span(rng) for _ in range(rng.choice([0, 1, 3]))]}
        fold = None
        if e['scheme'] == 'cv' and rng.random() < 0.3:
            fold = rng.randrange(e['folds'])
        runs.append({
            'exp': e, 'd': d, 'fold': fold,
            'start': rng.choice([1.7e9, 1.0e9, 1.7e9 + 0.999999, 951782399.5,
                                 rng.randrange(10 ** 9, 2 * 10 ** 9)]),
            'tick': rng.choice([1, 3, 1000, 37]),
            # (kind, wall, cpu, jump inside)
            'costs': [[span(rng), span(rng),
                       jump(rng) if rng.random() < 0.3 else 0]
                      for _ in range(rng.randint(1, 6))],
            'work': [span(rng) for _ in range(rng.choice([0, 1, 2]))],
            'jumps': [[rng.randint(0, 24), jump(rng)]
                      for _ in range(rng.choice([0, 0, 1, 2, 3]))]})
    return {'runs': runs, 'switches': G.switches(
        rng, rng.randint(3, 15) if len(runs) > 1 else 0, 1, 14)}


def simplify(plan):
    for i, r in enumerate(plan['runs']):
        for k, v in (('fold', None), ('tick', 1000), ('start', 1.7e9),
                     ('work', [])):
            if r[k] != v:
                q = json.loads(json.dumps(plan))
                q['runs'][i][k] = v
                yield q
        if r['d']['io']['delay'] or r['d']['in'] != 'opt' or \
                r['d']['out'] != 'opt':
            q = json.loads(json.dumps(plan))
            q['runs'][i]['d'].update({'in': 'opt', 'out': 'opt',
                                      'io': {'delay': []}})
            yield q


class JumpClock(seams.SimClock):
    def __init__(self, R, r):
        seams.SimClock.__init__(self, r['start'], r['tick'])
        self.R = R
        self.at = {}
        for n, us in r['jumps']:
            self.at[n] = self.at.get(n, 0) + us
        self.costs = [list(c) for c in r['costs']]
        self.work_costs = list(r['work'])
        self.n_phase = self.n_work = 0
        #: [kind, readings before, readings after]
        self.spans = []
        self.depth = 0

    def read(self, kind):
        us = self.at.get(len(self.readings))
        if us:
            self.jump(us)
            self.R.mark('jump', kind, len(self.readings), us < 0)
            self.R.fault('clock:jump-' + ('back' if us < 0 else 'forward'))
        return seams.SimClock.read(self, kind)

    @contextlib.contextmanager
    def phase(self, kind):
        if self.depth:
            yield
            return
        self.depth += 1
        s = [kind, len(self.readings), None]
        self.spans.append(s)
        try:
            if kind == 'work':
                if self.work_costs:
                    c = self.work_costs[self.n_work % len(self.work_costs)]
                    self.n_work += 1
                    self.advance(c)
                yield
            else:
                w, c, j = [0, 0, 0]
                if self.costs:
                    w, c, j = self.costs[self.n_phase % len(self.costs)]
                self.n_phase += 1
                self.advance(w // 2, c // 2)
                if j:
                    self.jump(j)
                    self.R.mark('jump', kind, self.n_phase, j < 0)
                    self.R.fault('clock:jump-%s-inside-phase' % (
                        'back' if j < 0 else 'forward'))
                yield
                self.advance(w - w // 2, c - c // 2)
        finally:
            s[2] = len(self.readings)
            self.depth -= 1


def instrument():
    """fit, predict and the handling of data take time on the clock of the
    simulated process that calls them."""
    from kamrecsys.data import EventWithScoreData
    from kamrecsys.item_finder import LogisticPMF
    from kamrecsys.score_predictor import PMF, MultinomialPLSA

    def wrap(cls, name, kind):
        real = getattr(cls, name)

        def f(self, *a, **kw):
            c = getattr(simio.current, 'clock', None)
            if not isinstance(c, JumpClock):
                return real(self, *a, **kw)
            with c.phase(kind):
                return real(self, *a, **kw)
        f.__name__ = name
        setattr(cls, name, f)
    for c in (PMF, MultinomialPLSA, LogisticPMF):
        wrap(c, 'fit', 'fit')
        wrap(c, 'predict', 'predict')
    for n in ('filter_event', 'set_event', 'binarize_score'):
        wrap(EventWithScoreData, n, 'work')


def run(plan, R):
    disk = simio.disk = simio.Disk()
    ps, clocks, info = [], [], []
    for i, r in enumerate(plan['runs']):
        names = exps.put_files(disk, r['exp'], 'e%d' % i)
        out = '/sim/out%d.json' % i
        c = JumpClock(R, r)
        clocks.append(c)
        ps.append(exps.process(R, 'exp%d' % i, r['exp'], r['d'], names, out,
                               fold=r['fold'], clock=c))
        info.append((r, out))
    for p in ps:
        p.prepare = instrument
    procs.run_procs(R, ps, plan['switches'])
    for (r, out), p, c in zip(info, ps, clocks):
        e = r['exp']
        what = 'experiment %s/%s' % (e['method'], e['scheme'])
        if p.status != 0 and e['method'] == 'lpmf' and isinstance(
                p.error, ValueError) and 'in fit\n' in p.traceback:
            R.probe('training impossible')
            continue
        exps.ended_well(p, what)
        res = exps.parse(p, r['d'], out, what)
        verify(R, r, res, c, what)


def verify(R, r, res, c, what):
    e = r['exp']
    if e['scheme'] == 'holdout':
        folds = ['0']
    elif r['fold'] is not None:
        folds = [str(r['fold'])]
    else:
        folds = [str(f) for f in range(e['folds'])]
    # consecutive calls of the same kind are one phase
    ph = []
    for kind, a, b in c.spans:
        if ph and ph[-1][0] == kind:
            ph[-1][2] = b
        else:
            ph.append([kind, a, b])
    real = [k for k, s in enumerate(ph) if s[0] != 'work']
    check([ph[k][0] for k in real] == ['fit', 'predict'] * len(folds),
          'phases', '%s: phases were %r for folds %r', what,
          [ph[k][0] for k in real], folds)
    wall = [(i, v) for i, (k, v) in enumerate(c.readings) if k == 'wall']
    cpu = [(i, v) for i, (k, v) in enumerate(c.readings) if k == 'cpu']
    for j, k in enumerate(real):
        f = folds[j // 2]
        sec = ('training', 'test')[j % 2]
        rec = res[sec]['results'][f]
        tag = '%s: %s of fold %s: ' % (what, sec, f)
        lo = ph[k - 1][2] if k else 0
        hi = ph[k + 1][1] if k + 1 < len(ph) else len(c.readings)
        before, after = (lo, ph[k][1]), (ph[k][2], hi)
        s, t = stamps(rec, tag, [
            v for i, v in wall if before[0] <= i < before[1]])
        check(any(abs(v - s) <= 1 and before[0] <= i < before[1] for i, v in wall),
              'start', '%sstart_time %s was not read just before the phase',
              tag, rec['start_time'])
        check(any(abs(v - t) <= 1 and after[0] <= i < after[1] for i, v in wall),
              'end', '%send_time %s was not read just after the phase', tag,
              rec['end_time'])
        el = rec.get('elapsed_time')
        want = datetime.timedelta(microseconds=t - s)
        check(el == str(want) or (
            isinstance(el, (int, float)) and
            abs(el - want.total_seconds()) < 1e-6), 'elapsed',
            '%selapsed_time is %r, but end - start is %s', tag, el, want)
        u = rec.get('elapsed_utime')
        us = [(y - x) / 1e6 for a, x in cpu for b, y in cpu
              if before[0] <= a < before[1] and after[0] <= b < after[1]]
        check(isinstance(u, (int, float)) and
              any(abs(u - x) <= 2e-6 for x in us), 'user-time',
              '%selapsed_utime is %r, but the user time of the phase is %r',
              tag, u, us)
        R.ev(sec, f, rec['start_time'], rec['end_time'], el, u)
        R.probe('%s timed' % sec)
        if t < s:
            R.probe('%s ended before it started by the clock' % sec)


def stamps(rec, tag, starts):
    """Start and end in microseconds, both of local or both of universal
    time."""
    for offset in (seams.ZONE, 0):
        s = stamp(rec, 'start_time', tag, offset)
        if any(abs(v - s) <= 1 for v in starts):
            break
    else:
        offset = seams.ZONE
    return (stamp(rec, 'start_time', tag, offset),
            stamp(rec, 'end_time', tag, offset))


def stamp(rec, k, tag, offset):
    try:
        t = datetime.datetime.fromisoformat(rec[k])
    except Exception:
        raise Violation('content', '%s%s is %r' % (tag, k, rec.get(k)))
    if t.tzinfo is not None:
        t, offset = t.astimezone(datetime.timezone.utc), 0
    d = t.replace(tzinfo=None) - datetime.datetime(1970, 1, 1)
    return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds - offset
