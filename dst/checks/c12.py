"""C12: splits are partitions within groups and repeatable."""
import copy
import json
import math

import numpy as np

from .. import gen as G, xcall
from ..core import Violation, check, dig
from ..sched import Sched
from .c04 import Globals

ID = 'C12'
RUNS = {'quick': 8000, 'thorough': 100000}
RULE = ('random splitters on random samples and group labels; 1-3 interleaved '
        'callers start, advance, abandon and restart traversals of the same '
        'splitters, some of them interrupted, overwrite what they were '
        'handed, and draw from and reseed the global generator; some runs '
        'repeat the splits in another process with another hash seed; '
        'non-trivial: a fault fired or a context switch happened')
SHRINK = [('switches',), ('tasks', 0), ('tasks', 1), ('tasks', 2)]
COMPONENTS = {'real': ['kamrecsys.model_selection',
                       'sklearn.model_selection'],
              'simulated': ['thread scheduling', 'asynchronous exceptions',
                            'global random generator', 'hash seed'],
              'stub': []}
ASSUMPTIONS = ['samples and groups are not changed during a traversal',
               'each group is large enough for the requested split']


def gen_spec(rng):
    k = rng.choice(['shuffle', 'shuffle', 'kfold', 'kfold', 'interlaced'])
    s = {'cls': k, 'k': rng.randint(2, 6)}
    if k == 'shuffle':
        s['k'] = rng.randint(1, 6)
        r = rng.random()
        frac = lambda: rng.choice([0.1, 0.2, 0.25, 0.3, 1 / 3., 0.5, 0.7, 0.9])
        if r < 0.5:
            s['test'] = frac() if rng.random() < 0.75 else rng.randint(1, 3)
        elif r < 0.8:
            s['test'] = None
            s['train'] = frac() if rng.random() < 0.75 else rng.randint(1, 3)
        else:
            a = rng.choice([0.1, 0.2, 0.25, 0.5])
            s['test'], s['train'] = a, rng.choice([0.1, 0.25, 0.5])
        s['shuffle'] = rng.random() < 0.85
    elif k == 'kfold':
        s['shuffle'] = rng.random() < 0.65
    if k != 'interlaced':
        s['rs'] = rng.choice([['int', 0], ['int', rng.randrange(10 ** 6)],
                              ['int', rng.randrange(2 ** 32)], ['none'],
                              ['npint', rng.randrange(1000)],
                              ['state', rng.randrange(10 ** 6)]]
                             if rng.random() < 0.4 else
                             [['int', rng.randrange(10 ** 6)]])
        if s['rs'][0] != 'int' and not s.get('shuffle', True):
            s['rs'] = ['none']
    if rng.random() < 0.12:
        # settings that are not given
        s['omit'] = [x for x in sorted(DEFAULTS[k]) if rng.random() < 0.6]
        for x in s['omit']:
            s[x] = DEFAULTS[k][x]
        if k == 'shuffle' and s['test'] is None and s.get('train') is None:
            s['test'] = 0.1
        if k != 'interlaced' and s['rs'][0] != 'int' and not s['shuffle']:
            s['rs'] = ['none']
    return s


#: documented values of settings that are not given
DEFAULTS = {'shuffle': {'k': 10, 'test': 0.1, 'train': None, 'shuffle': True},
            'kfold': {'k': 3, 'shuffle': False}, 'interlaced': {'k': 3}}
NAMES = {'k': 'n_splits', 'test': 'test_size', 'train': 'train_size'}


def sizes_ok(spec, n):
    """Whether a group of n samples can be split as `spec` asks."""
    if spec['cls'] == 'kfold':
        return n >= spec['k']
    if spec['cls'] == 'interlaced':
        return True
    t = n_tests(spec, n)
    te, tr = spec.get('test'), spec.get('train')
    if te is not None and tr is not None:
        if math.floor(tr * n) < 1 or max(t) + math.floor(tr * n) > n:
            return False
    for x in (te, tr):
        if isinstance(x, int) and not 0 < x < n:
            return False
    return min(t) >= 1 and max(t) < n


def n_tests(spec, n):
    """Acceptable numbers of test samples of a group of n samples."""
    te, tr = spec.get('test'), spec.get('train')
    if te is not None:
        if isinstance(te, int):
            return {te}
        return {math.ceil(te * n), math.ceil(te * n - 1e-9)}
    if isinstance(tr, int):
        return {n - tr}
    return {n - math.floor(tr * n), n - math.floor(tr * n + 1e-9)}


def gen_data(rng, specs, big=False):
    kind = rng.choice(['none', 'int', 'int', 'gaps', 'str', 'float', 'bool',
                       'neg', 'one', 'big', 'case'])
    ng = {'none': 1, 'bool': 2, 'one': 1}.get(kind, rng.randint(1, 5))
    if big and kind in ('int', 'gaps', 'big'):
        ng = rng.choice([5, 40, 130, 260])
    at = rng.choice([2 ** 53, 2 ** 31 - 3, 2 ** 62])
    lab = {'int': list(range(ng)), 'gaps': rng.sample(range(1, 1000), ng),
           'neg': rng.sample(range(-50, 50), min(ng, 50)),
           'bool': [False, True],
           # labels that are easily taken for each other
           'big': [at + x for x in range(ng)],
           'case': ['a', 'A', 'aa', 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab',
                    'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa'][:ng],
           'str': rng.sample(G.WORDS, min(ng, 5)), 'one': [7], 'none': [0],
           'float': [x / 4. for x in rng.sample(range(-20, 20), min(ng, 5))]}[kind]
    g = []
    for x in lab:
        n = rng.choice([1, 2, 3, 5, 7, 10, rng.randint(2, 25), 20, 30])
        if big and ng < 6:
            n = rng.choice([n, 127, 130, 255, 257, 300, 520, 1100])
        while not all(sizes_ok(s, n) for s in specs):
            n += 1
            if n > (1200 if big else 60):
                return None
        g += [x] * n
    if rng.random() < 0.85:
        rng.shuffle(g)
    return {'g': g, 'kind': kind, 'list': rng.random() < 0.15,
            'x': rng.choice(['2d', '1d', 'list', '2d']),
            'y': rng.random() < 0.3}


def gen(rng, idx, tier):
    big = idx % 100 == 50
    while True:
        specs = [gen_spec(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
        if big and rng.random() < 0.3:
            for s in specs:
                s['k'] = rng.choice([11, 70, 128, 130, 257])
        data = [gen_data(rng, specs, big)
                for _ in range(1 if big else rng.choice([1, 1, 2]))]
        if any(d is None for d in data):
            continue
        if big and max(s['k'] for s in specs) * len(data[0]['g']) > 20000:
            continue
        if all(len(d['g']) >= s['k'] for d in data for s in specs):
            break
    nt = rng.choice([1, 2, 2, 3])
    tasks = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.randint(4, 14)):
            k = rng.choices(['start', 'next', 'list', 'drop', 'noise',
                             'reseed', 'spoil', 'copy', 'n', 'bad'],
                            [3, 9, 2, 0.5, 2, 1, 1.5, 0.5, 0.5, 0.4])[0]
            o = {'op': k, 'spec': rng.randrange(len(specs)),
                 'data': rng.randrange(len(data)), 'slot': rng.randrange(3),
                 'n': rng.randint(1, 5), 'own': rng.random() < 0.3}
            if k == 'bad':
                o['bad'] = rng.choice(sorted(BAD))
            if k in ('start', 'next', 'list') and rng.random() < 0.12:
                o['fault'] = [rng.choice([rng.randint(1, 10),
                                          rng.randint(1, 60)]),
                              rng.choice(G.MORE)]
            ops.append(o)
        tasks.append(ops)
    plan = {'specs': specs, 'data': data, 'tasks': tasks,
            'switches': G.switches(rng, rng.randint(4, 25) if nt > 1 else 0,
                                   1, 40), 'seed': rng.randrange(10 ** 6)}
    if rng.random() < 0.2:
        plan['xproc'] = rng.randrange(1, 10 ** 6)
    return plan


def simplify(plan):
    for k in range(len(plan['tasks']) - 1, -1, -1):
        if len(plan['tasks']) > 1:
            c = json.loads(json.dumps(plan))
            del c['tasks'][k]
            yield c
    for k, ops in enumerate(plan['tasks']):
        for j, o in enumerate(ops):
            if o.get('fault'):
                c = json.loads(json.dumps(plan))
                del c['tasks'][k][j]['fault']
                yield c


def make(spec):
    import kamrecsys.model_selection as ms
    kw = {}
    for k, v in DEFAULTS[spec['cls']].items():
        x = spec.get(k)
        if k not in spec.get('omit', ()) or x != v:
            kw[NAMES.get(k, k)] = x
    if spec['cls'] == 'interlaced':
        return ms.InterlacedKFold(**kw)
    rs = spec['rs']
    kw['random_state'] = {
        'int': lambda: rs[1], 'none': lambda: None,
        'npint': lambda: np.int64(rs[1]),
        'state': lambda: np.random.RandomState(rs[1])}[rs[0]]()
    return (ms.KFoldWithinGroups if spec['cls'] == 'kfold' else
            ms.ShuffleSplitWithinGroups)(**kw)


def _with(**kw):
    import kamrecsys.model_selection as ms
    return ms.ShuffleSplitWithinGroups(random_state=3, **kw)


def _folds(k):
    import kamrecsys.model_selection as ms
    return ms.KFoldWithinGroups(n_splits=k)


def _inter(k):
    import kamrecsys.model_selection as ms
    return ms.InterlacedKFold(n_splits=k)


#: requests that no split can satisfy; n is the number of all samples and m
#: that of the smallest group
BAD = {
    'kfold of one': lambda n, m: _folds(1),
    'kfold of none': lambda n, m: _folds(0),
    'kfold of minus two': lambda n, m: _folds(-2),
    'kfold larger than a group': lambda n, m: _folds(max(m + 1, 2)),
    'kfold of more than all': lambda n, m: _folds(n + 1),
    'interlaced of one': lambda n, m: _inter(1),
    'interlaced of none': lambda n, m: _inter(0),
    'interlaced of minus one': lambda n, m: _inter(-1),
    'interlaced of more than all': lambda n, m: _inter(n + 1),
    'no size': lambda n, m: _with(test_size=None),
    'all in the test set': lambda n, m: _with(test_size=1.0),
    'all in the training set': lambda n, m: _with(test_size=None,
                                                  train_size=1.0),
    'more than all': lambda n, m: _with(test_size=1.25),
    'more than all in two': lambda n, m: _with(test_size=0.75,
                                               train_size=0.5),
    'text': lambda n, m: _with(test_size='0.5'),
    'a group in the test set': lambda n, m: _with(test_size=m),
    'more than a group': lambda n, m: _with(test_size=m + 1),
    'more than a group to train': lambda n, m: _with(test_size=None,
                                                     train_size=m + 1)}


def args(d):
    n = len(d['g'])
    X = {'1d': np.arange(n) * 3, 'list': [[i] for i in range(n)],
         '2d': np.c_[np.arange(n), -np.arange(n)]}[d['x']]
    y = np.arange(n) % 2 if d['y'] else None
    g = None
    if d['kind'] != 'none':
        g = list(d['g']) if d['list'] else np.array(d['g'])
    return X, y, g


def repeatable(spec):
    return (spec['cls'] == 'interlaced' or not spec.get('shuffle', True) or
            spec['rs'][0] in ('int', 'npint'))


def verify(spec, d, j, train, test):
    """One split is what `spec` asks for."""
    n = len(d['g'])
    tr, te = [int(i) for i in train], [int(i) for i in test]
    check(sorted(tr + te) == list(range(n)), 'partition', '%r: training %r '
          'and test %r are not a partition of %d samples', spec, tr, te, n)
    tes = set(te)
    for lab in sorted(set(d['g']), key=str):
        mem = [i for i in range(n) if d['g'][i] == lab]
        m = len(mem)
        hit = [k for k, i in enumerate(mem) if i in tes]
        if spec['cls'] == 'shuffle':
            check(len(hit) in n_tests(spec, m), 'sizes', '%r: %d test samples '
                  'of the %d of group %r, expected %r', spec, len(hit), m,
                  lab, n_tests(spec, m))
            if not spec['shuffle']:
                check(hit == list(range(hit[0], hit[0] + len(hit))), 'sizes',
                      '%r: unshuffled test samples %r of group %r', spec, hit,
                      lab)
        elif spec['cls'] == 'kfold':
            k = spec['k']
            check(len(hit) in (m // k, -(-m // k)), 'sizes', '%r: %d test '
                  'samples of the %d of group %r', spec, len(hit), m, lab)
            if not spec['shuffle'] and hit:
                check(hit == list(range(hit[0], hit[0] + len(hit))), 'sizes',
                      '%r: unshuffled test samples %r of group %r', spec, hit,
                      lab)
    if spec['cls'] == 'interlaced':
        check(tes == set(i for i in range(n) if i % spec['k'] == j),
              'interlaced', 'fold %d of %d is %r', j, spec['k'], te)


def whole(spec, d, splits):
    """All splits of one complete traversal."""
    n = len(d['g'])
    check(len(splits) == spec['k'], 'number', '%r gave %d splits', spec,
          len(splits))
    tests = [sorted(int(i) for i in te) for _, te in splits]
    if spec['cls'] != 'shuffle':
        check(sorted(sum(tests, [])) == list(range(n)), 'partition', '%r: '
              'test sets %r of all folds do not cover every sample once',
              spec, tests)
    labs = sorted(set(d['g']), key=str)
    room = 0.0
    for lab in labs:
        m = d['g'].count(lab)
        if spec['cls'] == 'shuffle':
            room += math.log(math.comb(m, min(n_tests(spec, m))))
        else:
            room += math.lgamma(m + 1) - spec['k'] * math.lgamma(
                m / spec['k'] + 1)
    if room < 30 or not spec.get('shuffle'):
        return
    # chances far below one in a billion
    if spec['cls'] == 'shuffle':
        check(len(set(map(tuple, tests))) == len(tests), 'not-anew',
              '%r: the same test set was drawn again: %r', spec, tests)
    pos = {}
    for i, g in enumerate(d['g']):
        pos.setdefault(g, []).append(i)
    for last in (False, True):
        plain = []
        if spec['cls'] == 'kfold':
            plain = [[] for _ in tests]
            for mem in pos.values():
                q, r = divmod(len(mem), spec['k'])
                at = 0
                for k in range(spec['k']):
                    e = at + q + (k < r)
                    plain[k] += mem[at:e]
                    at = e
        else:
            one = []
            for mem in pos.values():
                m = min(n_tests(spec, len(mem)))
                one += mem[-m:] if last else mem[:m]
            plain = [one] * len(tests)
        check(tests != [sorted(x) for x in plain], 'not-shuffled', '%r: '
              'test sets are %r', spec, tests)


def traverse(spec, d):
    return [(tr.copy(), te.copy()) for tr, te in make(spec).split(*args(d))]


def other(arg):
    specs, data = arg
    return {'%d,%d' % (i, j): dig(traverse(s, d))
            for i, s in enumerate(specs) for j, d in enumerate(data)
            if repeatable(s)}


def run(plan, R):
    specs, data = plan['specs'], plan['data']
    g = Globals(plan['seed'])
    ref = {}
    for i, s in enumerate(specs):
        for j, d in enumerate(data):
            if repeatable(s):
                ref[i, j] = traverse(s, d)
                g.check('by splitting with %r' % (s,))
                for k, (a, b) in enumerate(ref[i, j]):
                    verify(s, d, k, a, b)
                whole(s, d, ref[i, j])
                R.ev('ref', i, j, dig(ref[i, j]))
    shared = [make(s) for s in specs]
    given = [args(d) for d in data]
    keep = [dig(list(a)) for a in given]
    sched = Sched(R, plan['switches'])

    def body(ops, tid):
        own = [make(s) for s in specs]
        slots = [None] * 3
        handed = []

        def got(i, j, k, tr, te):
            verify(specs[i], data[j], k, tr, te)
            if (i, j) in ref:
                a, b = ref[i, j][k]
                check(np.array_equal(a, tr) and np.array_equal(b, te),
                      'repeatability', '%r: split %d is %r / %r, expected %r '
                      '/ %r', specs[i], k, tr.tolist(), te.tolist(),
                      a.tolist(), b.tolist())
            handed.append((tr, te, tr.copy(), te.copy()))
            R.ev(tid, 'split', i, j, k, dig([tr, te]))

        def step(t, o):
            i, j = o['spec'], o['data']
            f = o.get('fault')
            free = specs[i]['cls'] != 'interlaced' and not repeatable(
                specs[i]) and specs[i]['rs'][0] == 'none'
            if free:
                g.unseeded = 1      # the global generator is in use
            return inner(t, o, i, j, f, free)

        def inner(t, o, i, j, f, free):
            op = o['op']
            sp = own[i] if o['own'] else shared[i]
            if op == 'start':
                st, v = sched.call(t, lambda: sp.split(*given[j]), f)
                if st == 'ok':
                    slots[o['slot']] = {'it': v, 'i': i, 'j': j, 'k': 0,
                                        'all': []}
                return st, v, f
            if op == 'next':
                s = slots[o['slot']]
                if s is None:
                    return None
                st, v = sched.call(t, lambda: next(s['it'], None), f)
                if st != 'ok':
                    slots[o['slot']] = None
                    R.probe('traversal interrupted')
                    return st, v, f
                if v is None:
                    slots[o['slot']] = None
                    with sched.quiet(t):
                        check(s['k'] == specs[s['i']]['k'], 'number',
                              '%r ended after %d splits', specs[s['i']],
                              s['k'])
                        whole(specs[s['i']], data[s['j']], s['all'])
                    return None
                with sched.quiet(t):
                    check(s['k'] < specs[s['i']]['k'], 'number',
                          '%r gives more than %d splits', specs[s['i']],
                          specs[s['i']]['k'])
                    got(s['i'], s['j'], s['k'], *v)
                    s['all'].append((v[0].copy(), v[1].copy()))
                s['k'] += 1
                return None
            if op == 'list':
                st, v = sched.call(
                    t, lambda: list(sp.split(*given[j])), f)
                if st == 'ok':
                    with sched.quiet(t):
                        for k, (a, b) in enumerate(v):
                            got(i, j, k, a, b)
                        whole(specs[i], data[j], v)
                return st, v, f
            if op == 'drop':
                slots[o['slot']] = None
            elif op == 'noise':
                a, b = np.random.rand(o['n']), g.shadow.rand(o['n'])
                if not g.unseeded:
                    check(np.array_equal(a, b), 'global-generator', 'the '
                          'global random generator gives other numbers than '
                          'expected')
            elif op == 'reseed':
                np.random.seed(o['n'])
                g.shadow.seed(o['n'])
            elif op == 'spoil' and handed:
                tr, te, _, _ = handed.pop(o['n'] % len(handed))
                tr[:] = -5
                te[:] = 0
            elif op == 'copy':
                with sched.quiet(t):
                    own[i] = copy.deepcopy(sp)
            elif op == 'bad':
                m = min(data[j]['g'].count(x) for x in set(data[j]['g']))
                n = len(data[j]['g'])
                st, v = sched.call(
                    t, lambda: list(BAD[o['bad']](n, m).split(*given[j])))
                R.ev(tid, 'bad', o['bad'], st)
                check(st == 'exc' and isinstance(v, (ValueError, TypeError)),
                      'impossible-request', '%s of %d samples, groups of at '
                      'least %d: %r', o['bad'], n, m, v)
                R.probe('impossible request refused')
            elif op == 'n':
                st, v = sched.call(t, lambda: sp.get_n_splits(*given[j]))
                check(st == 'ok' and v == specs[i]['k'], 'number',
                      '%r: get_n_splits is %r', specs[i], v)
            return None

        def go(t):
            for o in ops:
                r = step(t, o)
                if r is not None and r[0] == 'exc' and not (
                        r[2] and t.fired):
                    raise Violation('unexpected-error', '%r: %r' % (
                        specs[o['spec']], r[1]))
                for a, b, c, d in handed:
                    check(np.array_equal(a, c) and np.array_equal(b, d),
                          'handed-out', 'a split handed out has changed: %r '
                          'was %r', b.tolist(), d.tolist())
                with sched.quiet(t):
                    g.check('during %r' % (o,))
        return go

    for k, ops in enumerate(plan['tasks']):
        sched.spawn(body(ops, k))
    sched.run()
    check([dig(list(a)) for a in given] == keep, 'arguments', 'samples or '
          'groups were modified')
    if plan.get('xproc'):
        got = xcall.call('c12', plan['xproc'], [specs, data])
        R.fault('process:restart-with-another-hash-seed')
        for (i, j), v in ref.items():
            check(got['%d,%d' % (i, j)] == dig(v), 'repeatability',
                  '%r gives other splits in another process', specs[i])
