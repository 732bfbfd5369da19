"""C15: success of a script means its output is completely on disk."""
import json

from .. import exps, gen as G, procs, seams, simio
from ..core import Violation, check, dig
from . import c14

ID = 'C15'
RUNS = {'quick': 2400, 'thorough': 60000}
RULE = ('1-2 experiment, merge or statistics scripts run at the same time on '
        'one simulated disk; every attempt meets a random crash, full disk, '
        'failed read, write, open, close or flush, interrupt or lack of '
        'memory, until one attempt is undisturbed; what failed attempts '
        'leave, and complete results cut at random bytes, are given to the '
        'scripts that read them; non-trivial: a fault fired or a context '
        'switch happened')
SHRINK = [('switches',), ('targets',), ('cuts',), ('targets', '*',
                                                   'attempts')]
COMPONENTS = {'real': ['scripts/exp_recsys_sp.py', 'scripts/exp_recsys_if.py',
                       'scripts/exp_recsys_util.py',
                       'scripts/exp_recsys_fold_merge.py',
                       'scripts/stats_recsys.py', 'kamrecsys',
                       'io stack of the interpreter', 'argparse', 'json',
                       'numpy', 'scipy.optimize', 'sklearn'],
              'simulated': ['disk', 'standard streams', 'processes',
                            'scheduling', 'clock', 'crashes',
                            'asynchronous exceptions'],
              'stub': ['/bin/cat /proc/cpuinfo']}
ASSUMPTIONS = ['an event file cut at a line boundary cannot be told from a '
               'complete one',
               'a crash of a process keeps what it wrote; crashes of the '
               'operating system are not simulated']


def attempt(rng):
    a = c14.attempt(rng)
    if a.get('fault') and rng.random() < 0.4:
        # near the end, where results are written
        a['fault']['op'] = -rng.choice([1, 1, 2, 3, rng.randint(1, 8)])
        if rng.random() < 0.4:
            a['fault'].update(kind='eio', lost=rng.choice([0, 1, 7, 100]),
                              errno=rng.choice(G.ERRNO))
    return a


def gen_target(rng):
    kind = rng.choice(['exp', 'exp', 'exp', 'merge', 'stats', 'stats'])
    t = {'kind': kind}
    if kind == 'exp':
        e = exps.gen_exp(rng, max_users=3, max_events=12,
                         folds=rng.choice([1, 2, 3]))
        t['fold'] = (rng.randrange(e['folds'])
                     if e['scheme'] == 'cv' and rng.random() < 0.4 else None)
        t['d'] = exps.gen_delivery(rng, e['scheme'])
    elif kind == 'merge':
        e = exps.gen_exp(rng, scheme='cv', max_users=3, max_events=10,
                         folds=rng.choice([1, 2, 2, 3]))
        t['order'] = rng.sample(range(e['folds']), e['folds'])
        t['d'] = {'in': 'opt', 'out': rng.choice(['opt', 'opt', 'stdout',
                                                  'optdash']),
                  'rel': rng.random() < 0.3,
                  'log': rng.choice(['-q', '--verbose', None]),
                  'io': exps.gen_io(rng)}
    else:
        e = exps.gen_exp(rng, max_users=3, max_events=12,
                         folds=rng.choice([1, 2, 3]))
        t['d'] = exps.gen_delivery(rng, e['scheme'])
        t['d']['keep'] = rng.choice([None, True, False])
    e['opts']['maxiter'] = rng.choice([1, 2, 2, 3])
    t['exp'] = e
    t['attempts'] = [attempt(rng) for _ in range(rng.randint(1, 3))]
    t['old'] = rng.choice([0, 0, 5, 3000])
    return t


def gen(rng, idx, tier):
    ts = [gen_target(rng) for _ in range(rng.choice([1, 1, 2]))]
    cuts = [[rng.randrange(len(ts)), round(rng.random(), 5) if
             rng.random() < 0.7 else rng.choice([0.0, 1.0]),
             rng.choice(['stats', 'stats', 'stdin', 'merge', 'merge-first',
                         'merge-last'])] for _ in range(rng.randint(1, 3))]
    return {'targets': ts, 'cuts': cuts, 'lines': rng.random() < 0.05,
            'switches': G.switches(rng, rng.randint(3, 20)
                                   if len(ts) > 1 else 0, 1, 14)}


def simplify(plan):
    for i, t in enumerate(plan['targets']):
        for a in range(len(t['attempts'])):
            q = json.loads(json.dumps(plan))
            del q['targets'][i]['attempts'][a]
            yield q
            if t['attempts'][a].get('io'):
                q = json.loads(json.dumps(plan))
                q['targets'][i]['attempts'][a]['io'] = None
                yield q
        if t['d'].get('io') or t['d']['in'] != 'opt':
            q = json.loads(json.dumps(plan))
            q['targets'][i]['d'].update({'in': 'opt', 'io': None,
                                         'rel': False})
            yield q
        if t['old']:
            q = json.loads(json.dumps(plan))
            q['targets'][i]['old'] = 0
            yield q


class Target(object):
    def __init__(self, R, disk, i, t):
        self.R, self.t, self.i = R, t, i
        self.e = t['exp']
        self.ref = exps.Ref(self.e)
        self.d = t['d']
        self.out = '/sim/out%d.json' % i
        self.what = {'exp': 'the experiment', 'merge': 'merging',
                     'stats': 'the statistics script'}[t['kind']]
        self.names = exps.put_files(disk, self.e, 'data%d' % i)
        self.ok = True
        plain = {'in': 'opt', 'out': 'opt'}
        self.inputs = []
        folds = [None]
        if t['kind'] == 'merge':
            folds = t['order']
        if t['kind'] != 'exp':
            for f in folds:
                path = '/sim/in%d.%s.json' % (i, f)
                p = exps.process(R, 'prep%d.%s' % (i, f), self.e, plain,
                                 self.names, path, fold=f)
                procs.run_procs(R, [p])
                if not self.well(p):
                    return
                self.inputs.append(path)
        p = self.make(R, 'ref%d' % i, None)
        procs.run_procs(R, [p])
        if not self.well(p):
            return
        self.n_ops = p.n_io
        self.want = exps.parse(p, self.d, self.out, self.what)
        self.full = exps.output(p, self.d, self.out)
        disk.files.pop(self.out, None)
        if t['old'] and not exps.to_stdout(self.d):
            disk.put(self.out, self.full + b'{"old": 1} ' * t['old'])

    def well(self, p):
        if p.status != 0 and self.ref.binary and \
                isinstance(p.error, ValueError) and 'in fit\n' in p.traceback:
            self.R.probe('training impossible')
            self.ok = False
            return False
        exps.ended_well(p, self.what)
        return True

    def make(self, R, tag, a):
        d = dict(self.d, io=(a or {}).get('io') or self.d.get('io'))
        faults = []
        if a and a.get('fault'):
            f = dict(a['fault'])
            if f['op'] < 0:
                f['op'] = max(1, self.n_ops + 1 + f['op'])
            faults = [f]
        if self.t['kind'] == 'exp':
            return exps.process(R, tag, self.e, d, self.names, self.out,
                                fold=self.t['fold'], faults=faults)
        if self.t['kind'] == 'merge':
            return exps.merge_process(R, tag, self.inputs, self.out, d,
                                      faults)
        return exps.stats_process(R, tag, self.inputs[0], self.out, d, faults)


def run(plan, R):
    disk = simio.disk = simio.Disk()
    ts = [Target(R, disk, i, t) for i, t in enumerate(plan['targets'])]
    ts = [t for t in ts if t.ok]
    before = disk.snapshot()
    outs = set(t.out for t in ts if not exps.to_stdout(t.d))
    todo = [list(t.t['attempts']) + [None] for t in ts]
    rnd = si = 0
    while any(todo):
        ps, trips, who = [], {}, []
        for t, q in zip(ts, todo):
            if not q:
                continue
            a = q.pop(0)
            if a and a.get('trip'):
                trips[len(ps)] = tuple(a['trip'])
            ps.append(t.make(R, 'p%d.%d' % (t.i, rnd), a))
            who.append((t, a))
        sw = plan['switches'][si:si + 8] if len(ps) > 1 else []
        si += len(sw)
        procs.run_procs(R, ps, sw, trips=trips,
                        line_points=plan['lines'] or bool(trips))
        exps.unmodified(disk, before, outs, 'a script')
        for (t, a), p in zip(who, ps):
            R.ev(p.name, t.t['kind'], p.status, p.faults_hit)
            if p.status == 0:
                check(not p.faults_hit, 'failure-hidden', '%s ended '
                      'successfully although an operation failed (%s)',
                      t.what, a)
                res = exps.parse(p, t.d, t.out, t.what)
                diff = exps.differences(exps.strip(t.want, False),
                                        exps.strip(res, False))
                check(not diff, 'output', '%s ended successfully, but its '
                      'output differs from that of an undisturbed run: %s',
                      t.what, '; '.join(diff))
                if a is None and t.t['attempts']:
                    R.probe('succeeded after disturbed attempts')
            else:
                check(a is not None and (p.faults_hit or p.crashed or
                                         a.get('trip')), 'unexpected-error',
                      '%s ended with %r: %s', t.what, p.status, p.traceback)
                leftover(R, disk, t, p)
        rnd += 1
    for c in plan['cuts']:
        if c[0] >= len(ts):
            continue
        t = ts[c[0]]
        k = min(int(c[1] * len(t.full)), len(t.full) - 1)
        refused(R, disk, t, t.full[:k], c[2], 'a result cut to %d of %d '
                'bytes' % (k, len(t.full)))


def leftover(R, disk, t, p):
    b = exps.output(p, t.d, t.out)
    if b is None or t.t['kind'] == 'stats' and not t.d.get('keep'):
        return
    try:
        json.loads(b.decode('utf-8'))
        return          # everything had been written
    except ValueError:
        pass
    for how in (('stats', 'merge-last') if len(b) % 2 else
                ('merge', 'stdin')):
        refused(R, disk, t, b, how, 'what a failed run left')
    R.probe('leftover refused')


def refused(R, disk, t, b, how, what):
    """A script given the incomplete result `b` must end with an error."""
    d = {'in': 'opt', 'out': 'opt'}
    disk.put('/sim/cut.json', b)
    disk.put('/sim/whole.json', t.full)
    if how == 'stdin':
        d['in'] = 'stdin'
    if how in ('stats', 'stdin'):
        p = exps.stats_process(R, 'reader', '/sim/cut.json', '/sim/o.json', d)
    else:
        ins = {'merge': ['/sim/cut.json'],
               'merge-first': ['/sim/cut.json', '/sim/whole.json'],
               'merge-last': ['/sim/whole.json', '/sim/cut.json']}[how]
        p = exps.merge_process(R, 'reader', ins, '/sim/o.json', d)
    procs.run_procs(R, [p])
    got = disk.get('/sim/o.json')
    for k in ('/sim/cut.json', '/sim/whole.json', '/sim/o.json'):
        disk.files.pop(k, None)
    R.ev('reader', how, p.status)
    check(p.status not in (0, None), 'incomplete-accepted', '%s (%s) accepted '
          '%s and gave %.80r', p.script.rsplit('/', 1)[1], how, what, got)
    R.probe('incomplete result refused by ' + how)
