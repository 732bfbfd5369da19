"""C11: converters and their loaders give back the raw data, whatever failed
before."""
import json
import os

import numpy as np

from .. import env, gen as G, procs, refs, simio, xcall
from ..core import Run, Violation, check, dig

ID = 'C11'
RUNS = {'quick': 2500, 'thorough': 60000}
RULE = ('random raw files in the distributed formats of five data sets, '
        'converted by 1-3 converters that are run at the same time on one '
        'simulated disk, each attempt with a random crash, full disk, failed '
        'read, write, open or close, interrupt, short reads and writes or '
        'none, until one attempt is undisturbed, and then loaded; '
        'non-trivial: a fault fired or a context switch happened')
SHRINK = [('switches',), ('jobs',), ('jobs', '*', 'attempts'),
          ('jobs', '*', 'ratings')]
COMPONENTS = {'real': ['data/movielens100k.py', 'data/movielens1m.py',
                       'data/movielens_mini.py', 'data/flixster.py',
                       'data/sushi3.py', 'kamrecsys.datasets loaders',
                       'kamrecsys.data', 'io stack of the interpreter',
                       'numpy.genfromtxt'],
              'simulated': ['disk', 'processes', 'scheduling',
                            'asynchronous exceptions', 'crashes'],
              'stub': []}
ASSUMPTIONS = ['every rated object has a row in the raw feature files, and '
               'names contain no tab and no number sign',
               'a crash of a process keeps what it wrote; crashes of the '
               'operating system are not simulated']

OCC = ['none', 'other', 'administrator', 'artist', 'doctor', 'educator',
       'engineer', 'entertainment', 'executive', 'healthcare', 'homemaker',
       'lawyer', 'librarian', 'marketing', 'programmer', 'retired',
       'salesman', 'scientist', 'student', 'technician', 'writer']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
       'Nov', 'Dec']
GENRE = ["Action", "Adventure", "Animation", "Children's", "Comedy", "Crime",
         "Documentary", "Drama", "Fantasy", "Film-Noir", "Horror", "Musical",
         "Mystery", "Romance", "Sci-Fi", "Thriller", "War", "Western"]
AGE1M = [('1', 'Under 18'), ('18', '18-24'), ('25', '25-34'),
         ('35', '35-44'), ('45', '45-49'), ('50', '50-55'), ('56', '56+')]
NAMES = ['Toy Story', 'Il Postino', u'Mis\u00e9rables, Les', u'\u00c1 k\u00f6ldum klaka',
         'Star Wars: Episode IV - A New Hope', "Children's Hour, The",
         '"Quoted" Name', 'unknown', 'A', u'Fr\u00f8ken & Co.', '8 1/2',
         u'Don\u2019t Look', '1-900', ' Leading', 'What?!', u'\u00dcber',
         'City of Lost Children, The (Cit\u00e9 des enfants perdus, La)',
         'nan', '-1', 'True']
FISH = ['toro', u'\u30a8\u30d3', u'\u3044\u304f\u3089', 'tekka maki', u'\u7a74\u5b50',
        'uni', u'\u9bad', 'x']
SETS = {'100k': ['movielens100k'], 'mini': ['movielens100k',
                                            'movielens_mini'],
        '1m': ['movielens1m'], 'flixster': ['flixster'],
        'sushi3': ['sushi3']}
LOADER = {'100k': 'load_movielens100k', 'mini': 'load_movielens_mini',
          '1m': 'load_movielens1m', 'flixster': 'load_flixster_rating',
          'sushi3': 'load_sushi3b_score'}


FILES = {'100k': ['movielens100k.event', 'movielens100k.user',
                  'movielens100k.item'],
         'mini': ['movielens_mini.event', 'movielens100k.user',
                  'movielens100k.item'],
         '1m': ['movielens1m.event', 'movielens1m.user', 'movielens1m.item'],
         'flixster': ['flixster.event'],
         'sushi3': ['sushi3b_score.event', 'sushi3.user', 'sushi3.item']}


def attempt(rng):
    a = {'bufsize': rng.choice([None, None, 16, 128, 1024])}
    if rng.random() < 0.5:
        a['rchunk'] = [rng.choice([1, 3, 9, 40, 200])
                       for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.5:
        a['wchunk'] = [rng.choice([1, 5, 20, 100])
                       for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.6:
        k = rng.choice(['crash', 'crash', 'enospc', 'enospc', 'eio', 'eio',
                        'interrupt', 'memory'])
        a['fault'] = {'op': rng.choice([rng.randint(1, 12),
                                        rng.randint(1, 60),
                                        rng.randint(20, 400)]),
                      'kind': k}
        if k in ('crash', 'enospc'):
            a['fault']['torn'] = round(rng.random(), 3)
        elif k == 'eio':
            a['fault']['lost'] = rng.choice([0, 1, 7, 100])
            a['fault']['errno'] = rng.choice(G.ERRNO)
    else:
        a['trip'] = [rng.choice([rng.randint(1, 60), rng.randint(1, 400)]),
                     rng.choice(['crash', 'crash', 'interrupt', 'memory',
                                 'error'])]
    return a


def name(rng):
    n = rng.choice(NAMES)
    if rng.random() < 0.4:
        n += ' %d' % rng.randint(1, 99)
    if rng.random() < 0.15:
        # what looks like a year, or nearly
        n += rng.choice([' (1984)', ' (2010), The', ' (31)', ' (19845)',
                         ' (a.k.a. 1999)', ' [1950]', ' (1984)Again',
                         ' (0451) '])
    return n


def limit(n, k, tail=''):
    """`n` made as long as the format permits."""
    return (n + ' ' + u'long \u00e9' * 20)[:k - len(tail)].rstrip() + tail


def gen_job(rng, which):
    j = {'set': which}
    small = which == 'mini'
    nu, ni = rng.randint(1, 7), rng.randint(1, 8)
    if which == 'sushi3':
        ni = rng.randint(1, 12)
        j['users'] = [[rng.randrange(10 ** 4), rng.randrange(2),
                       rng.randrange(6), rng.randrange(2000),
                       rng.randrange(48), rng.randrange(12), rng.randrange(2),
                       rng.randrange(48), rng.randrange(12), rng.randrange(2),
                       rng.randrange(2)] for _ in range(nu)]
        j['items'] = [[i, rng.choice(FISH), rng.randrange(2),
                       rng.randrange(2), rng.randrange(12)] +
                      [round(rng.random() * m, rng.choice([2, 6, 14]))
                       for m in (4, 3, 5, 1)] for i in range(ni)]
        m = [[rng.choice([-1, -1, 0, 1, 2, 3, 4]) for _ in range(ni)]
             for _ in range(nu)]
        m[0][ni - 1] = rng.randrange(5)
        j['ratings'] = m
    else:
        hi = 14 if small else rng.choice([10, 100, 3952])
        hi = max(hi, nu + ni)
        us, its = rng.sample(range(1, hi + 1), nu), rng.sample(
            range(1, hi + 1), ni)
        if which == '1m' and rng.random() < 0.3 and 3845 not in its:
            its[0] = 3845
        if small:
            us[0] = rng.choice([u for u in range(1, 11) if u not in us[1:]])
            its[0] = rng.choice([u for u in range(1, 11) if u not in its[1:]])
        lv = [1, 2, 3, 4, 5]
        if which == 'flixster':
            lv = ['0.5', '1.0', '1.5', '2', '2.5', '3.0', '3.5', '4', '4.5',
                  '5.0']
        j['ratings'] = [[rng.choice(us), rng.choice(its), rng.choice(lv),
                         874724710 + rng.randrange(10 ** 8)]
                        for _ in range(rng.choice([1, 2, rng.randint(1, 40)]))]
        if small:
            j['ratings'].insert(rng.randint(0, len(j['ratings'])),
                                [us[0], its[0], 3, 900000000])
        rng.shuffle(us)
        j['users'], j['items'] = [], []
        zips = ['%05d' % rng.randrange(10 ** 5), '00501', 'T8H1N', '10003']
        if which == '1m':
            zips += ['55405-1234', '231130']
        for u in us:
            if which == '1m':
                j['users'].append([u, rng.choice('MF'), rng.randrange(7),
                                   rng.randrange(21), rng.choice(zips)])
            else:
                j['users'].append([u, rng.choice('MF'), rng.randint(7, 73),
                                   rng.randrange(21), rng.choice(zips)])
        for i in its:
            g = sorted(rng.sample(range(18), rng.randint(
                1 if which == '1m' else 0, 4)))
            y = rng.randint(1922, 2000)
            if which == '1m':
                n = name(rng)
                if i == 3845:
                    n += ' &#8230;'
                n = '%s (%d)' % (n, y)
                if rng.random() < 0.08 and i != 3845:
                    n = limit(n[:-7], 82, ' (%d)' % y)
                j['items'].append([i, n, y, g])
                rng.shuffle(j['items'][-1][3])
            else:
                n = name(rng)
                if rng.random() < 0.8:
                    n += ' (%d)' % y
                if rng.random() < 0.08:
                    n = limit(n, 81)
                date = None if rng.random() < 0.2 else [
                    rng.randint(1, 28), rng.randint(1, 12), y]
                url = '' if rng.random() < 0.2 else (
                    'http://us.imdb.com/M/title-exact?%d%%20(%d)' % (i, y))
                if url and rng.random() < 0.1:
                    url = (url + '%20x' * 40)[:134]
                j['items'].append([i, n, date, g, url])
    j['crlf'] = rng.random() < 0.2
    j['final'] = rng.random() < 0.8
    j['old'] = rng.random() < 0.4
    j['target'] = rng.choice([None, None, '/sim/out', 'out'])
    j['rel'] = rng.random() < 0.3
    j['attempts'] = [[attempt(rng) for _ in range(rng.choice([0, 1, 1, 2]))]
                     for _ in SETS[which]]
    j['load'] = {'bufsize': rng.choice([None, 64]), 'rchunk':
                 [rng.choice([5, 50, 300])] if rng.random() < 0.4 else [],
                 'infile': rng.random() < 0.3}
    if rng.random() < 0.5:
        k = rng.choice(['eio', 'eio', 'memory', 'interrupt', 'cut', 'cut',
                        'missing'])
        j['unloadable'] = {'kind': k, 'file': rng.randrange(9),
                           'at': round(rng.random(), 3)}
        if k in ('eio', 'memory', 'interrupt'):
            j['unloadable']['fault'] = {
                'op': rng.randint(1, 14), 'kind': k}
            if k == 'eio':
                j['unloadable']['fault']['errno'] = rng.choice(G.ERRNO)
    return j


def gen(rng, idx, tier):
    # at most one of the two that write the same files
    kinds = [rng.choice(['100k', 'mini']), '1m', 'flixster', 'sushi3']
    rng.shuffle(kinds)
    jobs = [gen_job(rng, k) for k in kinds[:rng.choice([1, 1, 2, 3])]]
    return {'xproc': rng.randint(1, 10 ** 6) if rng.random() < 0.1 else 0,
            'jobs': jobs, 'switches': G.switches(
        rng, rng.randint(3, 25) if len(jobs) > 1 else 0, 1, 120)}


def simplify(plan):
    for i, j in enumerate(plan['jobs']):
        for k in ('crlf', 'old', 'target', 'rel', 'unloadable'):
            if j.get(k):
                q = json.loads(json.dumps(plan))
                q['jobs'][i][k] = None
                yield q
        for s, at in enumerate(j['attempts']):
            for a in range(len(at)):
                q = json.loads(json.dumps(plan))
                del q['jobs'][i]['attempts'][s][a]
                yield q
                for k in ('rchunk', 'wchunk', 'bufsize'):
                    if at[a].get(k):
                        q = json.loads(json.dumps(plan))
                        q['jobs'][i]['attempts'][s][a][k] = None
                        yield q


# --- raw files -----------------------------------------------------------------
def raw_files(j):
    """{file name: bytes} of the distribution of the data set."""
    w = j['set']
    out = {}
    if w in ('100k', 'mini'):
        out['u.data'] = ['\t'.join(map(str, r)) for r in j['ratings']]
        out['u.user'] = ['%d|%d|%s|%s|%s' % (u[0], u[2], u[1], OCC[u[3]],
                                             u[4]) for u in j['users']]
        rows = []
        for i, n, date, g, url in j['items']:
            d = '' if date is None else '%02d-%s-%d' % (
                date[0], MON[date[1] - 1], date[2])
            fl = ['0' if g else '1'] + ['1' if k in g else '0'
                                        for k in range(18)]
            rows.append('|'.join([str(i), n, d, '', url] + fl))
        out['u.item'] = rows
    elif w == '1m':
        out['ratings.dat'] = ['::'.join(map(str, r)) for r in j['ratings']]
        out['users.dat'] = ['%d::%s::%s::%d::%s' % (
            u[0], u[1], AGE1M[u[2]][0], u[3], u[4]) for u in j['users']]
        out['movies.dat'] = ['%d::%s::%s' % (
            i, n, '|'.join(GENRE[k] for k in g))
            for i, n, y, g in j['items']]
    elif w == 'flixster':
        out['ratings.txt'] = ['%d\t%d\t%s\t2007-01-0%d' % (
            r[0], r[1], r[2], 1 + r[3] % 9) for r in j['ratings']]
    else:
        out['sushi3b.5000.10.score'] = [' '.join(map(str, r))
                                        for r in j['ratings']]
        out['sushi3.udata'] = ['\t'.join(map(str, r)) for r in j['users']]
        out['sushi3.idata'] = ['\t'.join(map(str, r)) for r in j['items']]
    nl = '\r\n' if j.get('crlf') else '\n'
    res = {}
    for k, rows in out.items():
        t = nl.join(rows) + (nl if j['final'] else '')
        res[k] = t.encode('utf-8' if w == 'sushi3' else 'cp1252')
    return res


def expected(j):
    """Reference container of the raw data."""
    from kamrecsys import datasets as ds
    w = j['set']
    r = refs.RefData(2, None)
    if w == 'sushi3':
        rows = [(u, i, s) for u, row in enumerate(j['ratings'])
                for i, s in enumerate(row) if s >= 0]
        r.fill([x[:2] for x in rows], [float(x[2]) for x in rows],
               [0, 4, 1], 5)
        r.set_feature(0, range(len(j['users'])),
                      [tuple(u) for u in j['users']])
        r.set_feature(1, [i[0] for i in j['items']],
                      [(i[1], i[2], i[3], i[4]) + tuple(map(float, i[5:]))
                       for i in j['items']])
        return r
    rows = j['ratings']
    if w == 'mini':
        rows = [x for x in rows if x[0] <= 10 and x[1] <= 10]
    if w == 'flixster':
        r.fill([tuple(x[:2]) for x in rows], [float(x[2]) for x in rows],
               [0.5, 5.0, 0.5], 10)
        return r
    r.fill([tuple(x[:2]) for x in rows], [float(x[2]) for x in rows],
           [1, 5, 1], 5, [(x[3],) for x in rows])
    if w == '1m':
        info = [str(x) for x in ds.MOVIELENS1M_INFO['user_age']]
        r.set_feature(0, [u[0] for u in j['users']], [
            (int(u[1] == 'F'), info.index(AGE1M[u[2]][1]), u[3], u[4][:5])
            for u in j['users']])
        info = [str(x) for x in ds.MOVIELENS1M_INFO['item_genre']]
        r.set_feature(1, [i[0] for i in j['items']], [
            (i[1].replace('&#8230;', u'\u2026') if i[0] == 3845 else i[1],
             i[2], tuple(int(g in [GENRE[k] for k in i[3]]) for g in info))
            for i in j['items']])
    else:
        info = [str(x).lower() for x in
                ds.MOVIELENS100K_INFO['user_occupation']]
        r.set_feature(0, [u[0] for u in j['users']], [
            (u[2], int(u[1] == 'F'), info.index(OCC[u[3]]), u[4])
            for u in j['users']])
        info = [str(x) for x in ds.MOVIELENS100K_INFO['item_genre']]
        r.set_feature(1, [i[0] for i in j['items']], [
            (i[1],) + ((0, 0, 0) if i[2] is None else tuple(i[2])) +
            (tuple(int(g in [GENRE[k] for k in i[3]]) for g in info), i[4])
            for i in j['items']])
    return r


# --- run ---------------------------------------------------------------------
def damage(u, path, data):
    """The file without the end of one of its records; None if it has too
    few of them for that to be seen."""
    lines = data.split(b'\n')
    rows = [i for i, x in enumerate(lines) if x and not x.startswith(b'#')]
    if len(rows) < 2:
        return None
    # every other record has all of its fields
    i = rows[int(u['at'] * len(rows)) % len(rows)]
    lines[i] = lines[i].rsplit(b'\t', 1)[0]
    return b'\n'.join(lines)


def unloadable(plan, R, disk, sample, loader):
    """Files of a data set that cannot be read are an error."""
    ps, who, put = [], [], {}
    for i, j in enumerate(plan['jobs']):
        u = j.get('unloadable')
        if not u:
            continue
        faults = [dict(u['fault'])] if u.get('fault') else []
        must = False
        if u['kind'] in ('cut', 'missing'):
            fs = FILES[j['set']]
            path = os.path.join(sample, fs[u['file'] % len(fs)])
            put[path] = disk.get(path)
            if u['kind'] == 'missing':
                del disk.files[path]
                must = True
            else:
                new = damage(u, path, put[path])
                if new is not None:
                    must = True
                    disk.put(path, new)
            R.fault('data set:' + u['kind'])
        ps.append(procs.Func(R, 'unloadable%d' % i, loader(j),
                             ioplan=simio.IOPlan(faults)))
        who.append((j, must))
    if not ps:
        return
    procs.run_procs(R, ps, [], line_points=True)
    for k, v in put.items():
        disk.put(k, v)
    for (j, must), p in zip(who, ps):
        R.ev(p.name, p.status)
        if p.status == 0:
            check(not must and not p.faults_hit, 'failure-hidden',
                  '%s returned a container although a file of the data set '
                  'could not be read (%s)', LOADER[j['set']],
                  j['unloadable']['kind'])
        else:
            check(must or p.faults_hit, 'unexpected-error', '%s: %s',
                  LOADER[j['set']], p.traceback)
            R.probe('unloadable files are refused')


def new_disk(plan, sample):
    d = simio.Disk()
    d.overlay = [env.RAWDATA, sample]
    for p in (env.RAWDATA, sample, '/sim/out'):
        d.dirs.add(p)
    raw = {}
    for j in plan['jobs']:
        for k, v in raw_files(j).items():
            raw[os.path.join(env.RAWDATA, k)] = v
    for k, v in raw.items():
        d.put(k, v)
    return d, raw


def process(R, tag, j, stage, a):
    a = a or {}
    script = os.path.join(env.RAWDATA, SETS[j['set']][stage] + '.py')
    args, cwd, name_ = [], '/sim', script
    if j.get('target'):
        args = [j['target']]
    if j.get('rel') and j.get('target') != 'out':
        cwd, name_ = env.RAWDATA, os.path.basename(script)
    return procs.Proc(
        R, tag, script, args, cwd=cwd, argv0=name_,
        ioplan=simio.IOPlan([dict(a['fault'])] if a.get('fault') else [],
                            a.get('rchunk') or (), a.get('wchunk') or (),
                            a.get('bufsize')))


def outputs(disk, raw):
    return {k: v for k, v in disk.snapshot().items() if k not in raw}


def undisturbed(plan, R, sample):
    """Files of an undisturbed run of every converter."""
    disk, raw = new_disk(plan, sample)
    simio.disk = disk
    for i, j in enumerate(plan['jobs']):
        for st in range(len(SETS[j['set']])):
            p = process(R, 'ref%d.%d' % (i, st), j, st, None)
            procs.run_procs(R, [p])
            check(p.status == 0, 'unexpected-error', '%s failed: %s',
                  SETS[j['set']][st], p.traceback)
    return outputs(disk, raw)


def other(plan):
    """Runs in another process."""
    from kamrecsys import datasets as ds
    try:
        return {k: dig(v) for k, v in undisturbed(
            plan, Run(), os.path.normpath(ds.SAMPLE_PATH)).items()}
    finally:
        simio.disk = None


def run(plan, R):
    from kamrecsys import datasets as ds
    sample = os.path.normpath(ds.SAMPLE_PATH)
    want = undisturbed(plan, R, sample)
    if plan.get('xproc'):
        got = xcall.call('c11', plan['xproc'], plan)
        R.fault('process:another-hash-seed')
        for k in want:
            check(got.get(k) == dig(want[k]), 'output', '%s of an undisturbed '
                  'run in a process with another hash seed differs', k)
    disk, raw = new_disk(plan, sample)
    simio.disk = disk
    for i, j in enumerate(plan['jobs']):
        if j.get('old'):
            d = '/sim/out' if j.get('target') else sample
            for k in want:
                if os.path.dirname(k) == d:
                    disk.put(k, b'9\t9\t9\n' * 900)
    todo = []
    for j in plan['jobs']:
        q = []
        for st in range(len(SETS[j['set']])):
            q += [(st, a) for a in j['attempts'][st]] + [(st, None)]
        todo.append(q)
    rnd = 0
    si = 0
    while any(todo):
        ps, trips, who = [], {}, []
        for i, q in enumerate(todo):
            if not q:
                continue
            st, a = q.pop(0)
            if a and a.get('trip'):
                trips[len(ps)] = tuple(a['trip'])
            ps.append(process(R, 'conv%d.%d.%d' % (i, st, rnd),
                              plan['jobs'][i], st, a))
            who.append((i, st, a))
        sw = plan['switches'][si:si + 12] if len(ps) > 1 else []
        si += len(sw)
        procs.run_procs(R, ps, sw, line_points=True, trips=trips)
        now = disk.snapshot()
        for k, v in raw.items():
            check(now.get(k) == v, 'input-changed',
                  'a converter changed its input %s', k)
        for (i, st, a), p in zip(who, ps):
            s = SETS[plan['jobs'][i]['set']][st]
            R.ev(p.name, s, p.status)
            if p.status == 0:
                check(not p.faults_hit, 'failure-hidden', '%s ended '
                      'successfully although an operation failed', s)
                for k in p.opened_w:
                    if k in want:
                        check(now.get(k) == want[k], 'output', '%s ended '
                              'successfully, but %s differs from that of an '
                              'undisturbed run (%d bytes instead of %d)', s,
                              k, len(now.get(k, b'')), len(want[k]))
                if rnd and a is None:
                    R.probe('converted after a disturbed attempt')
            elif not p.faults_hit and not p.crashed:
                raise Violation('unexpected-error', '%s failed: %s' % (
                    s, p.traceback))
        rnd += 1
    got = outputs(disk, raw)
    for k in want:
        check(got.get(k) == want[k], 'output', '%s differs from that of an '
              'undisturbed run', k)
    # load
    for k, v in list(got.items()):
        if k.startswith('/sim/out/'):
            disk.put(os.path.join(sample, os.path.basename(k)), v)
    before = disk.snapshot()

    def loader(j):
        def go(proc):
            fn = getattr(ds, LOADER[j['set']])
            if j['load']['infile'] and j['set'] != 'mini':
                return fn(os.path.join(sample, FILES[j['set']][0]))
            return fn()
        return go
    unloadable(plan, R, disk, sample, loader)
    check(disk.snapshot() == before, 'input-changed', 'a loader wrote')
    ps = []
    for i, j in enumerate(plan['jobs']):
        go = loader(j)
        ps.append(procs.Func(R, 'load%d' % i, go, ioplan=simio.IOPlan(
            [], j['load']['rchunk'], (), j['load']['bufsize'])))
    procs.run_procs(R, ps, plan['switches'][si:], line_points=True)
    check(disk.snapshot() == before, 'input-changed', 'a loader wrote')
    for j, p in zip(plan['jobs'], ps):
        check(p.status == 0, 'unexpected-error', '%s: %s', LOADER[j['set']],
              p.traceback)
        r = expected(j)
        tag = LOADER[j['set']] + ': '
        refs.check_events(p.value, r, tag)
        refs.check_ids(p.value, r, tag)
        refs.check_scale(p.value, r, tag)
        R.ev(p.name, 'loaded', dig(p.value.event), dig(p.value.score))
