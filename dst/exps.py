"""Experiments: generated inputs, command lines of the experiment scripts, and
an independent reading of what their results must contain."""
import json
import math
import os
import platform

import numpy as np

from . import core, env, gen as G, procs, simio, xcall
from .core import HarnessError, Violation, check, dig

SP = os.path.join(env.SCRIPTS, 'exp_recsys_sp.py')
IF = os.path.join(env.SCRIPTS, 'exp_recsys_if.py')
MERGE = os.path.join(env.SCRIPTS, 'exp_recsys_fold_merge.py')
STATS = os.path.join(env.SCRIPTS, 'stats_recsys.py')
TIMES = ('start_time', 'end_time', 'elapsed_time', 'elapsed_utime')
MODEL = {'pmf': ('PMF', 'score_predictor'),
         'plsam': ('MultinomialPLSA', 'score_predictor'),
         'plsamm': ('MultinomialPLSA', 'score_predictor'),
         'lpmf': ('LogisticPMF', 'item_finder')}
#: scales whose arithmetic is exact
EXACT = [[1, 5, 1], [0, 4, 1], [0.5, 5, 0.5], [-2, 2, 1], [0, 1, 0.25],
         [10, 50, 10], [0, 1, 1], [0, 1, 1], [1, 4, 1], [-1, 1, 2], [1, 2, 1]]


# --- plans -------------------------------------------------------------------
def gen_exp(rng, scheme=None, method=None, folds=None, max_users=5, ts=None,
            max_events=22, large=False):
    m = method or rng.choice(['pmf', 'pmf', 'plsam', 'plsamm', 'lpmf',
                              'lpmf'])
    e = {'method': m, 'scheme': scheme or rng.choice(['cv', 'cv', 'holdout'])}
    if m == 'lpmf' or rng.random() < 0.5:
        dom = list(rng.choice(EXACT))
        nl = int(round((dom[1] - dom[0]) / dom[2])) + 1
    else:
        dom, nl = G.domain(rng)
    if m != 'lpmf' and dom == [0, 1, 1]:
        dom, nl = [1, 5, 1], 5
    e['domain'] = dom
    e['ts'] = (rng.random() < 0.75) if ts is None else ts
    e['auto'] = rng.random() < 0.3
    kind = rng.choice(['small', 'gaps', 'neg', 'big'])
    users = G.id_pool(rng, rng.randint(1, max_users), kind)[0]
    items = G.id_pool(rng, rng.randint(2, 6), kind)[0]
    if large:
        if kind in ('neg', 'big'):
            users, items = users[:1], items[:1]
        else:
            users, items = [3], [7]
        for ids, n in ((users, rng.choice([12, 40, 130, 140])),
                       (items, rng.choice([9, 50, 260]))):
            while len(ids) < n:
                ids.append(ids[-1] + rng.choice([1, 1, 1, 2, 9]))
        max_events = rng.choice([300, 1100])
    rows = []

    def row(u, ii):
        return [u, rng.choice(ii), G.level(dom, rng.randrange(nl)),
                rng.randrange(800000000, 900000000)]
    for u in users:
        for _ in range(rng.choice([2, 2, 3, 4, 5, 6, 7, 10, 11])):
            rows.append(row(u, items))
    while len(rows) > max_events:
        # keep at least two events of every user
        k = rng.randrange(len(rows))
        if sum(r[0] == rows[k][0] for r in rows) > 2:
            del rows[k]
        elif all(sum(r[0] == s[0] for s in rows) <= 2 for r in rows):
            break
    rng.shuffle(rows)
    if e['auto'] and len(rows) >= 3:
        # a scale can be estimated only from such scores
        for r, j in zip(rows, [0, min(1, nl - 1), nl - 1]):
            r[2] = G.level(dom, j)
        rng.shuffle(rows)
    else:
        e['auto'] = False
    e['rows'] = rows
    if e['scheme'] == 'holdout':
        more = users + [max(users) + 17] if rng.random() < 0.5 else users
        mi = items + [max(items) + 5] if rng.random() < 0.5 else items
        e['test'] = [row(rng.choice(more), mi)
                     for _ in range(rng.choice([1, 2, rng.randint(1, 9)]) *
                                    (100 if large else 1))]
    e['folds'] = folds or rng.choice([1, 2, 2, 3, 4] * 5 + [11])
    e['rseed'] = rng.choice([rng.randrange(10 ** 6)] * 7 + [0])
    o = {'k': rng.choice([None, 1, 2, 3]),
         'tol': rng.choice([None, 1e-2, 1e-4, 1e-7]),
         'maxiter': rng.choice([1, 2, 3, 5, None, None, 0])}
    if m in ('plsam', 'plsamm'):
        o['alpha'] = rng.choice([None, 0.5, 2.0, 0.01])
        if o['maxiter'] is None:
            o['maxiter'] = 9
    else:
        o['C'] = rng.choice([None, 1.0, 0.1, 3.0])
    if large:
        o['k'], o['maxiter'] = rng.choice([None, 1, 2]), rng.choice([1, 2])
        e['folds'] = min(e['folds'], 3)
    e['opts'] = o
    e['foldopt'] = rng.random() < 0.8 or e['scheme'] != 'cv'
    if not e['foldopt']:
        e['folds'] = 5
    e['long'] = rng.random() < 0.5
    e['crlf'] = rng.random() < 0.15
    e['final'] = rng.random() < 0.8
    return e


def gen_io(rng, faults=True, p=0.5):
    """How a process meets its devices."""
    d = {'bufsize': rng.choice([None, None, 16, 128, 1024])}
    if rng.random() < p:
        d['rchunk'] = [rng.choice([1, 3, 9, 40, 200])
                       for _ in range(rng.randint(1, 4))]
    if rng.random() < p:
        d['wchunk'] = [rng.choice([30, 100, 500, 3000])
                       for _ in range(rng.randint(1, 4))]
    return d


def gen_delivery(rng, scheme):
    d = {'in': rng.choice(['opt', 'opt', 'pos', 'stdin', 'dash', 'optdash'])}
    outs = ['opt', 'opt', 'stdout', 'optdash']
    if d['in'] in ('pos', 'dash'):
        outs += ['pos', 'pos', 'dash']
    d['out'] = rng.choice(outs)
    d['rel'] = rng.random() < 0.3
    d['log'] = rng.choice(['-q', '--quiet', '--verbose', None])
    d['io'] = gen_io(rng)
    d['cores'] = rng.choice([0, 0, 0, 8, 40])
    return d


def cores(n):
    # what /proc/cpuinfo tells about the processors of a machine
    return b''.join(b'processor\t: %d\nvendor_id\t: GenuineSim\nflags\t\t: '
                    b'fpu vme de pse tsc msr pae mce cx8 apic sep mtrr pge\n'
                    b'bugs\t\t: spectre_v1 "quoted" \\ slash\n\n' % i
                    for i in range(n or 0))


# --- files and command lines ---------------------------------------------------
def text(rows, e):
    out = []
    for u, i, s, t in rows:
        f = [str(u), str(i), repr(s) if isinstance(s, int) else '%.10g' % s]
        if e['ts']:
            f.append(str(t))
        out.append('\t'.join(f))
    nl = '\r\n' if e.get('crlf') else '\n'
    return (nl.join(out) + (nl if e.get('final', True) else '')).encode()


def put_files(disk, e, stem):
    """Input files of an experiment; returns their names."""
    names = {'in': '/sim/%s.event' % stem}
    disk.put(names['in'], text(e['rows'], e))
    if e['scheme'] == 'holdout':
        names['test'] = '/sim/%s.test' % stem
        disk.put(names['test'], text(e['test'], e))
    return names


def argv(e, d, names, out, fold=None):
    """Command line and standard input of an experiment."""
    def nm(p):
        return os.path.basename(p) if d.get('rel') else p
    lo = e.get('long')
    a = ['--method' if lo else '-m', e['method']]
    if e['scheme'] == 'cv' or lo:
        a += ['--validation' if lo else '-v', e['scheme']]
    if e['foldopt']:
        a += ['--fold' if lo else '-f', str(e['folds'])]
    if fold is not None:
        a += ['--fold-no' if lo else '-n', str(fold)]
    if not e['ts']:
        a += ['--no-timestamp']
    elif lo:
        a += ['--timestamp']
    if not e['auto']:
        a += ['--domain' if lo else '-d'] + [
            '%.10g' % x for x in e['domain']]
    for k, s, l in (('C', '-C', '--lambda'), ('k', '-k', '--dim'),
                    ('alpha', '--alpha', '--alpha'),
                    ('tol', '--tol', '--tol'),
                    ('maxiter', '--maxiter', '--maxiter')):
        if e['opts'].get(k) is not None:
            a += [l if lo else s, '%r' % e['opts'][k]]
    if e['rseed'] is not None:
        a += ['--rseed', str(e['rseed'])]
    if d.get('log'):
        a.append(d['log'])
    if e['scheme'] == 'holdout':
        a += ['--test' if lo else '-t', nm(names['test'])]
    stdin = b''
    pos = []
    if d['in'] == 'opt':
        a += ['--in' if lo else '-i', nm(names['in'])]
    elif d['in'] == 'pos':
        pos.append(nm(names['in']))
    else:
        stdin = bytes(simio.disk.files[names['in']])
        if d['in'] == 'optdash':
            a += ['-i', '-']
        elif d['in'] == 'dash':
            pos.append('-')
    if d['out'] == 'opt':
        a += ['--out' if lo else '-o', nm(out)]
    elif d['out'] == 'optdash':
        a += ['-o', '-']
    elif d['out'] == 'pos':
        pos.append(nm(out))
    elif d['out'] == 'dash':
        pos.append('-')
    return a + pos, stdin


def to_stdout(d):
    return d['out'] in ('stdout', 'optdash', 'dash')


def from_stdin(d):
    return d['in'] not in ('opt', 'pos')


def ioplan(d, faults=()):
    d = d or {}
    return simio.IOPlan([dict(f) for f in faults], d.get('rchunk') or (),
                        d.get('wchunk') or (), d.get('bufsize'),
                        d.get('delay') or ())


def process(R, tag, e, d, names, out, fold=None, faults=(), **kw):
    args, stdin = argv(e, d, names, out, fold)
    kw.setdefault('cpuinfo', cores(d.get('cores')))
    return procs.Proc(R, tag, IF if e['method'] == 'lpmf' else SP, args,
                      stdin=stdin, ioplan=ioplan(d.get('io'), faults), **kw)


def merge_process(R, tag, ins, out, d, faults=(), **kw):
    def nm(p):
        return os.path.basename(p) if d.get('rel') else p
    a = []
    if d.get('log'):
        a.append(d['log'])
    if d['out'] == 'opt':
        a += ['-o', nm(out)]
    elif d['out'] == 'optdash':
        a += ['-o', '-']
    a += [nm(p) for p in ins]
    return procs.Proc(R, tag, MERGE, a, ioplan=ioplan(d.get('io'), faults),
                      **kw)


def stats_process(R, tag, inp, out, d, faults=(), **kw):
    def nm(p):
        return os.path.basename(p) if d.get('rel') else p
    a, pos, stdin = [], [], b''
    if d.get('keep') is not None:
        a.append('--keepdata' if d['keep'] else '--no-keepdata')
    if d.get('rseed') is not None:
        a += ['--rseed', str(d['rseed'])]
    if d['in'] == 'opt':
        a += ['-i', nm(inp)]
    elif d['in'] == 'pos':
        pos.append(nm(inp))
    else:
        stdin = bytes(simio.disk.files[inp])
        if d['in'] == 'optdash':
            a += ['-i', '-']
        elif d['in'] == 'dash':
            pos.append('-')
    if d['out'] == 'opt':
        a += ['-o', nm(out)]
    elif d['out'] == 'optdash':
        a += ['-o', '-']
    elif d['out'] == 'pos':
        pos.append(nm(out))
    elif d['out'] == 'dash':
        pos.append('-')
    return procs.Proc(R, tag, STATS, a + pos, stdin=stdin,
                      ioplan=ioplan(d.get('io'), faults), **kw)


def output(p, d, out):
    """Bytes a process delivered to its output."""
    if to_stdout(d):
        return bytes(p.out_node)
    return simio.disk.get(out)


def parse(p, d, out, what):
    b = output(p, d, out)
    try:
        r = json.loads(b.decode('utf-8'))
    except Exception as x:
        raise Violation('output', '%s ended successfully, but its output of '
                        '%s bytes is not a result (%s)' % (
                            what, None if b is None else len(b), x))
    check(isinstance(r, dict), 'output', '%s gave %r', what, type(r))
    return r


def ended_well(p, what):
    check(p.status == 0, 'unexpected-error', '%s (%s) ended with %r: %s %s',
          what, ' '.join(p.args), p.status, p.traceback,
          p.stderr.getvalue()[-800:])


# --- reference ----------------------------------------------------------------
class Ref(object):
    """What an experiment must give, from its specification alone."""

    def __init__(self, e):
        self.e = e
        self.rows = e['rows']
        self.binary = e['method'] == 'lpmf'
        self.sc = [float(r[2]) for r in self.rows]
        if self.binary:
            self.sc = [self.bin(x) for x in self.sc]
        self.cache = {}

    def bin(self, x):
        lo, hi = self.e['domain'][:2]
        return 0 if x <= (lo + hi) / 2.0 else 1

    def options(self):
        e, o = self.e, self.e['opts']
        r = {'tol': 1e-05 if o.get('tol') is None else o['tol'],
             'k': 1 if o.get('k') is None else o['k'],
             'random_state': e['rseed']}
        if e['method'] in ('plsam', 'plsamm'):
            r['alpha'] = 1.0 if o.get('alpha') is None else o['alpha']
            r['use_expectation'] = e['method'] == 'plsam'
        else:
            r['C'] = 0.01 if o.get('C') is None else o['C']
        if o.get('maxiter') is not None:
            r['maxiter'] = o['maxiter']
        return r

    def train(self, idx):
        """(model, report) trained on the rows `idx`."""
        key = tuple(idx)
        if key not in self.cache:
            from . import models
            from kamrecsys.data import EventWithScoreData
            name = MODEL[self.e['method']][0]
            c = EventWithScoreData(n_otypes=2)
            ef = None
            if self.e['ts']:
                ef = np.zeros(len(idx), dtype=[('timestamp', int)])
                ef['timestamp'] = [self.rows[i][3] for i in idx]
            c.set_event(np.array([self.rows[i][:2] for i in idx]),
                        np.array([self.sc[i] for i in idx]),
                        score_domain=[0, 1, 1] if self.binary
                        else list(self.e['domain']), event_feature=ef)
            m = models.cls_of(name)(**self.options())
            err = None
            try:
                m.fit(c)
            except Exception as x:
                err = x
            self.cache[key] = (m, err)
        return self.cache[key]

    def predict(self, idx, ev):
        m, err = self.train(idx)
        if err is not None:
            return None
        return np.atleast_1d(m.predict(np.array(ev)))

    def trainable(self):
        """Whether a hold-out run can work at all."""
        if self.e['scheme'] == 'holdout':
            return self.train(range(len(self.rows)))[1] is None
        return True


def _same(a, b):
    """A JSON value of a result and its expected value."""
    if isinstance(b, (bool, np.bool_)):
        return a is bool(b) or a == str(bool(b))
    if isinstance(b, (int, float, np.integer, np.floating)):
        if isinstance(a, bool) or not isinstance(a, (int, float)):
            return False
        b = float(b)
        if math.isnan(b):
            return math.isnan(a)
        return abs(a - b) <= 1e-6 * max(1.0, abs(b))
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(b, (list, tuple)):
        return (isinstance(a, list) and len(a) == len(b) and
                all(_same(x, y) for x, y in zip(a, b)))
    return a == str(b) or a == b


def fold_list(res, key, fold):
    x = res['prediction'][key]
    return x if fold is None else x[fold]


def check_result(ref, res, d, names, out, folds=None, merged=False):
    """C13: a result holds exactly what the experiment specifies."""
    import kamrecsys
    e = ref.e
    tag = '%s/%s: ' % (e['method'], e['scheme'])
    for k in ('condition', 'environment', 'training', 'test', 'model',
              'prediction'):
        check(isinstance(res.get(k), dict), 'content', '%sno section %r', tag,
              k)
    cv = e['scheme'] == 'cv'
    c = res['condition']
    check(_same(c.get('score_domain'), [float(x) for x in e['domain']]),
          'settings', '%sscore domain is %r, expected %r', tag,
          c.get('score_domain'), e['domain'])
    check(c.get('has_timestamp') is e['ts'], 'settings',
          '%shas_timestamp is %r', tag, c.get('has_timestamp'))
    check(c.get('scheme') == e['scheme'], 'settings', '%sscheme is %r', tag,
          c.get('scheme'))
    check(c.get('n_folds') == (e['folds'] if cv else 1), 'settings',
          '%sn_folds is %r', tag, c.get('n_folds'))
    check(_same(c.get('explicit_rating'), True), 'settings',
          '%sexplicit_rating is %r', tag, c.get('explicit_rating'))
    m = res['model']
    name, task = MODEL[e['method']]
    check(m.get('name') == name and m.get('task_type') == task, 'settings',
          '%smodel is %r of %r', tag, m.get('name'), m.get('task_type'))
    check(_same(m.get('explicit_ratings'), True), 'settings',
          '%sexplicit_ratings of the model is %r', tag,
          m.get('explicit_ratings'))
    what = {'plsam': 'expectation', 'plsamm': 'mode'}.get(
        e['method'], 'matrix factorization')
    check(what in str(m.get('method')).replace('_', ' '), 'settings',
          '%smethod is recorded as %r', tag, m.get('method'))
    check(isinstance(m.get('module'), str) and task in m['module'],
          'settings', '%smodule is %r', tag, m.get('module'))
    want = ref.options()
    got = m.get('options') or {}
    for k in want:
        check(k in got and _same(got[k], want[k]), 'settings',
              '%soption %s is %r, expected %r', tag, k, got.get(k), want[k])
    if not merged:
        want = '<stdin>' if from_stdin(d) else os.path.basename(names['in'])
        check(want in str(res['training'].get('file')), 'names',
              '%straining file is recorded as %r, not %r', tag,
              res['training'].get('file'), want)
        if not cv:
            want = os.path.basename(names['test'])
        check(want in str(res['test'].get('file')), 'names',
              '%stest file is recorded as %r, not %r', tag,
              res['test'].get('file'), want)
        want = '<stdout>' if to_stdout(d) else os.path.basename(out)
        check(want in str(c.get('out_file')), 'names', '%soutput file is '
              'recorded as %r, not %r', tag, c.get('out_file'), want)
    sc = res['environment'].get('script', {})
    check(sc.get('name') == ('exp_recsys_if.py' if e['method'] == 'lpmf'
                             else 'exp_recsys_sp.py'), 'settings',
          '%sscript is %r', tag, sc)
    check(isinstance(res['environment'].get('system'), dict) and
          isinstance(res['environment'].get('version'), dict) and
          res['environment']['version'].get('numpy') == np.__version__ and
          res['environment']['version'].get('python') ==
          platform.python_version() and
          res['environment']['version'].get('kamrecsys') ==
          kamrecsys.__version__,
          'settings', '%senvironment is incomplete', tag)
    trows = e['rows'] if cv else e['test']
    for sec, rows in (('training', e['rows']), ('test', trows)):
        for k, col in (('n_users', 0), ('n_items', 1)):
            check(res[sec].get(k) == len(set(r[col] for r in rows)), 'counts',
                  '%s%s of %s is %r', tag, k, sec, res[sec].get(k))
        check(res[sec].get('n_events') == len(rows), 'counts',
              '%sn_events of %s is %r, expected %d', tag, sec,
              res[sec].get('n_events'), len(rows))
    if cv:
        folds = [str(f) for f in (range(e['folds']) if folds is None
                                  else folds)]
    else:
        folds = ['0']
    for sec in ('training', 'test'):
        check(sorted(res[sec].get('results', {})) == sorted(folds), 'folds',
              '%sresults of %s are of folds %r, expected %r', tag, sec,
              sorted(res[sec].get('results', {})), sorted(folds))
    P = res['prediction']
    keys = ['event', 'true', 'predicted'] + (['mask'] if cv else []) + (
        ['event_feature'] if e['ts'] else [])
    check(all(k in P for k in keys), 'content', '%sprediction has %r', tag,
          sorted(P))
    if not e['ts']:
        check('event_feature' not in P, 'content',
              '%sunexpected event features', tag)
    else:
        check(sorted(P['event_feature']) == ['timestamp'], 'content',
              '%sevent features are %r', tag, sorted(P['event_feature']))
    if cv:
        for k in ('event', 'true', 'predicted', 'mask'):
            check(sorted(P[k]) == sorted(folds), 'folds',
                  '%s%s has folds %r, expected %r', tag, k, sorted(P[k]),
                  sorted(folds))
    n = len(e['rows'])
    for f in folds:
        ff = f if cv else None
        t = '%sfold %s: ' % (tag, f)
        ev = fold_list(res, 'event', ff)
        if cv:
            mask = P['mask'][f]
            check(len(set(mask)) == len(mask) and
                  all(isinstance(i, int) and 0 <= i < n for i in mask),
                  'folds', '%spositions are %r', t, mask)
            for u in set(r[0] for r in e['rows']):
                own = [i for i in range(n) if e['rows'][i][0] == u]
                k = len(set(own) & set(mask))
                check(abs(k - 0.2 * len(own)) < 1 and k >= 1, 'folds',
                      '%s%d of the %d events of user %r are tested', t, k,
                      len(own), u)
            rows = [e['rows'][i] for i in mask]
            train = [i for i in range(n) if i not in set(mask)]
        else:
            rows, train = e['test'], list(range(n))
        check(ev == [list(r[:2]) for r in rows], 'alignment',
              '%sevents are %r, expected %r', t, ev, [r[:2] for r in rows])
        tr = [ref.bin(r[2]) if ref.binary else float(r[2]) for r in rows]
        got = fold_list(res, 'true', ff)
        check(_same(got, tr) and all(
            abs(a - b) <= 1e-12 * abs(b) for a, b in zip(got, tr)), 'alignment',
              '%strue scores are %r, expected %r', t,
              fold_list(res, 'true', ff), tr)
        if e['ts']:
            x = P['event_feature']['timestamp']
            x = x if ff is None else x.get(ff)
            check(x == [r[3] for r in rows], 'alignment',
                  '%stimestamps are %r, expected %r', t, x,
                  [r[3] for r in rows])
        pr = fold_list(res, 'predicted', ff)
        check(len(pr) == len(rows), 'alignment', '%s%d predictions for %d '
              'events', t, len(pr), len(rows))
        want = ref.predict(train, [r[:2] for r in rows])
        if want is None:
            check(False, 'leak', '%strained although the training events '
                  'alone do not permit it: %s', t, ref.train(train)[1])
        if e['rseed'] is None:
            # what was learned depends on the entropy of the system
            want = pr
            lo, hi = e['domain'][:2]
            check(all(isinstance(a, (int, float)) for a in pr) and (
                e['method'] == 'pmf' or all(
                    (0 < a < 1) if ref.binary else
                    lo - 1e-6 <= a <= hi + 1e-6 for a in pr)),
                'prediction', '%spredictions are %r', t, pr)
        for i, (a, b) in enumerate(zip(pr, want)):
            ok = isinstance(a, (int, float)) and abs(a - b) <= 1e-6 * max(
                1.0, abs(b))
            check(ok, 'prediction', '%sprediction %d for %r is %r; a model '
                  'trained only on the other events gives %r', t, i,
                  rows[i][:2], a, float(b))
        rep = ref.train(train)[0].fit_results_
        got = res['training']['results'][f]
        for k in rep:
            if e['rseed'] is None and not k.startswith('n_') or (
                    k == 'n_iterations' and e['rseed'] is None):
                check(k in got, 'report', '%sno %s in the report', t, k)
                continue
            check(k in got and _same(got[k], rep[k]), 'report',
                  '%sreport %s is %r, expected %r', t, k, got.get(k), rep[k])
        check(res['test']['results'][f].get('n_events') == len(rows),
              'counts', '%sn_events of the test is %r', t,
              res['test']['results'][f].get('n_events'))
        for sec in ('training', 'test'):
            for k in TIMES:
                check(k in res[sec]['results'][f], 'content',
                      '%s%s of %s is missing', t, k, sec)


# --- comparison of results ------------------------------------------------------
def strip(res, files=True):
    """A result without what may differ from run to run."""
    r = json.loads(json.dumps(res))
    if files:
        r.get('condition', {}).pop('out_file', None)
        for sec in ('training', 'test'):
            r.get(sec, {}).pop('file', None)
    for sec in ('training', 'test'):
        for f in (r.get(sec, {}).get('results') or {}).values():
            for k in TIMES:
                f.pop(k, None)
    return r


def differences(a, b, path=''):
    """Paths at which two JSON values differ (at most a few)."""
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                out.append('%s/%s missing' % (path, k))
            else:
                out += differences(a[k], b[k], path + '/' + k)
            if len(out) > 4:
                break
        return out
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out += differences(x, y, '%s[%d]' % (path, i))
            if len(out) > 4:
                break
        return out
    if isinstance(a, float) and isinstance(b, float) and (
            a == b or (math.isnan(a) and math.isnan(b))):
        return []
    return [] if a == b and type(a) is type(b) else [
        '%s: %.60r / %.60r' % (path, a, b)]


def unmodified(disk, before, allowed, what):
    """Every file there was is as before, except those in `allowed`."""
    now = disk.snapshot()
    for k, v in before.items():
        if k not in allowed:
            check(now.get(k) == v, 'input-changed', '%s changed %s', what, k)


# --- another process ------------------------------------------------------------
def other(e):
    """The result of an experiment, without what may differ from run to run;
    None if it failed.  Runs in a process with another hash seed."""
    R = core.Run()
    d = {'in': 'opt', 'out': 'opt'}
    disk = simio.disk = simio.Disk()
    try:
        names = put_files(disk, e, 'x')
        p = process(R, 'other', e, d, names, '/sim/x.json')
        procs.run_procs(R, [p])
        if p.status != 0:
            return None
        return comparable(parse(p, d, '/sim/x.json', 'an experiment'))
    finally:
        simio.disk = None


def comparable(res):
    s = strip(res)
    s.pop('environment', None)
    return s


def same_elsewhere(R, check_name, seed, e, res):
    r = xcall.call(check_name, seed, e)
    R.fault('process:another-hash-seed')
    check(r is not None, 'unexpected-error', 'the experiment fails in a '
          'process with another hash seed')
    diff = differences(json.loads(json.dumps(comparable(res))), r)
    check(not diff, 'hash-seed', 'an experiment gives another result in a '
          'process with another hash seed: %s', '; '.join(diff))
