"""C10: loading returns the whole file or an error, however delivered."""
import io
import os
import json
import sys

import numpy as np

from .. import gen as G, procs, refs, simio
from ..core import Violation, check, dig

ID = 'C10'
RUNS = {'quick': 8000, 'thorough': 100000}
RULE = ('random event files (comments, blank lines, line endings, event '
        'features, strides) loaded by 1-3 interleaved processes through a '
        'path, an open file or a pipe of the simulated device, which '
        'delivers them in random pieces, fails, interrupts the reader, or '
        'ends inside a record; non-trivial: a fault fired or a context '
        'switch happened')
SHRINK = [('switches',), ('clients',), ('recs',)]
COMPONENTS = {'real': ['kamrecsys.datasets.load_event, load_event_with_score, '
                       'load_flixster_rating, load_pci_sample',
                       'kamrecsys.data', 'io stack of the interpreter',
                       'numpy.genfromtxt'],
              'simulated': ['disk', 'pipe', 'scheduling',
                            'asynchronous exceptions'],
              'stub': []}
ASSUMPTIONS = ['a file cut inside the digits of its last field, or at a line '
               'boundary, cannot be told from a complete one']

DT = {'ts': [('timestamp', int)],
      'mix': [('timestamp', int), ('w', float)],
      'vec': [('a', int), ('v', float, 2)],
      'str': [('tag', 'U8')]}


def gen(rng, idx, tier):
    loader = rng.choice(['score', 'score', 'score', 'event', 'event',
                         'flixster', 'pci'])
    big = rng.random() < (0.15 if tier == 'quick' else 0.3)
    p = {'loader': loader}
    if loader in ('score', 'event'):
        p['n_otypes'] = rng.choice([1, 2, 2, 2, 3])
        p['otypes'] = None
        if rng.random() < 0.4:
            ot = list(range(p['n_otypes']))
            ot += [rng.randrange(p['n_otypes'])
                   for _ in range(rng.randint(0, 2))]
            rng.shuffle(ot)
            p['otypes'] = ot
    else:
        p['n_otypes'], p['otypes'] = 2, None
    s = p['n_otypes'] if p['otypes'] is None else len(p['otypes'])
    if loader == 'flixster':
        p['domain'] = [0.5, 5.0, 0.5]
    elif loader == 'pci':
        p['domain'] = [1.0, 5.0, 0.5]
    elif loader == 'score':
        p['domain'] = G.domain(rng)[0]
        p['default_domain'] = rng.random() < 0.2
        if p['default_domain']:
            p['domain'] = [1, 5, 1]
    p['dtype'] = None if loader == 'pci' else rng.choice(
        [None, None, 'ts', 'ts', 'mix', 'vec', 'str'])
    kind = 'str' if loader == 'pci' else rng.choice(
        ['small', 'gaps', 'neg', 'big'])
    pools = [G.id_pool(rng, rng.randint(1, 8), kind)[0]
             for _ in range(p['n_otypes'])]
    if kind == 'str':
        pools = [[w.strip() for w in q if '_' != w] or ['a'] for q in pools]
    ot = list(range(p['n_otypes'])) if p['otypes'] is None else p['otypes']
    n = rng.choice([1, 1, 2, 3]) if rng.random() < 0.4 else rng.randint(
        1, 60 if big else 12)
    recs = []
    for i in range(n):
        r = {'e': [rng.choice(pools[o]) for o in ot]}
        if 'domain' in p:
            d = p['domain']
            nl = int(round((d[1] - d[0]) / d[2])) + 1
            r['s'] = G.level(d, rng.randrange(nl))
        r['f'] = rng.randrange(10 ** 9)
        r['g'] = rng.randrange(-400, 400) / 8.0
        r['pre'] = rng.choice(['', '', '', '', '\n', '# comment\n',
                               u'#\u5bff\u53f8\tx\ty\n', '#\n', '\n\n'])
        r['post'] = rng.choice(['', '', '', '', ' # note', '#'])
        recs.append(r)
    p['recs'] = recs
    # (numpy refuses further columns next to a lone column of ids)
    p['extra'] = p['dtype'] is None and loader != 'pci' and \
        (s > 1 or loader != 'event') and rng.random() < 0.15
    p['crlf'] = rng.random() < 0.25
    p['final'] = rng.random() < 0.6
    p['style'] = rng.choice(['g', 'g', 'f', 'e'])
    if rng.random() < 0.3:
        p['cut'] = round(rng.random(), 4)
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = {'how': rng.choice(['path', 'path', 'rb', 'r', 'stdin', 'stdin',
                                'stdin.buffer', 'bytesio', 'stringio',
                                'lines', 'again'])}
        if loader == 'pci' and c['how'] in ('rb', 'stdin.buffer', 'bytesio'):
            c['how'] = 'stdin'      # bytes have no known encoding
        if loader in ('pci', 'flixster') and rng.random() < 0.15:
            c['how'] = 'sample'
        if rng.random() < 0.75:
            c['rchunk'] = [rng.choice([1, 2, 3, 7, 16, 64])
                           for _ in range(rng.randint(1, 5))]
        c['bufsize'] = rng.choice([None, 1, 8, 16, 128, 8192])
        if rng.random() < 0.4:
            c['fault'] = {'op': rng.randint(1, 12),
                          'kind': rng.choice(['eio', 'eio', 'interrupt',
                                              'memory'])}
            c['fault']['errno'] = rng.choice(G.ERRNO)
        elif rng.random() < 0.3:
            c['trip'] = [rng.randint(1, 60), rng.choice(G.KINDS)]
        clients.append(c)
    if idx % 100 == 50:
        # a long file
        target = rng.choice([300, 1100, 1100, 5000, 12000])
        p['rep'] = target // len(recs) + 1
        clients = clients[:1 if target > 2000 else 2]
        for c in clients:
            c['bufsize'] = rng.choice([None, 1024, 8192, 65536])
            c['rchunk'] = [rng.choice([1000, 4096, 8192, 10 ** 5])]
            if c.get('fault'):
                c['fault']['op'] = rng.randint(1, 40)
            if c.get('trip'):
                c['trip'][0] = rng.randint(1, 4 * target)
    p['clients'] = clients
    p['switches'] = G.switches(rng, rng.randint(3, 20)
                               if len(clients) > 1 else 0, 1, 40)
    return p


def simplify(plan):
    if plan.get('rep', 1) > 1:
        for k in (1, plan['rep'] // 4, plan['rep'] // 2,
                  plan['rep'] * 3 // 4, plan['rep'] - 1):
            if 1 <= k < plan['rep']:
                q = json.loads(json.dumps(plan))
                q['rep'] = k
                yield q
    for i, c in enumerate(plan['clients']):
        for k in ('fault', 'trip', 'rchunk', 'bufsize'):
            if c.get(k):
                q = json.loads(json.dumps(plan))
                del q['clients'][i][k]
                q['clients'][i].setdefault('bufsize', None)
                yield q
    for k in ('crlf', 'extra', 'cut'):
        if plan.get(k):
            q = json.loads(json.dumps(plan))
            q.pop(k)
            yield q
    for i, r in enumerate(plan['recs']):
        if r['pre'] or r['post']:
            q = json.loads(json.dumps(plan))
            q['recs'][i]['pre'] = q['recs'][i]['post'] = ''
            yield q


def num(x, style):
    x = float(x)
    if style == 'f':
        return '%.6f' % x
    if style == 'e':
        return '%.6e' % x
    return '%g' % x


def fields(plan, r):
    out = [str(x) for x in r['e']]
    if 's' in r:
        out.append(num(r['s'], plan['style']))
    if plan['dtype'] == 'ts':
        out.append(str(r['f']))
    elif plan['dtype'] == 'mix':
        out += [str(r['f']), repr(r['g'])]
    elif plan['dtype'] == 'vec':
        out += [str(r['f']), repr(r['g']), repr(-r['g'])]
    elif plan['dtype'] == 'str':
        out.append('t %d' % (r['f'] % 10 ** 5))
    elif plan.get('extra'):
        out += [str(r['f']), 'x']
    return out


def feature(plan, r):
    k = plan['dtype']
    if k == 'ts':
        return (r['f'],)
    if k == 'mix':
        return (r['f'], r['g'])
    if k == 'vec':
        return (r['f'], (r['g'], -r['g']))
    if k == 'str':
        return ('t %d' % (r['f'] % 10 ** 5),)
    return None


def text(plan):
    """(bytes of the file, end offset of every record)."""
    nl = '\r\n' if plan.get('crlf') else '\n'
    out = b''
    lines = []
    for r in plan['recs']:
        out += r['pre'].replace('\n', nl).encode('utf-8')
        start = len(out)
        body = '\t'.join(fields(plan, r))
        out += body.encode('utf-8')
        end = len(out)
        out += (r['post'] + nl).encode('utf-8')
        lines.append((start, end, len(out)))
    if not plan['final']:
        out = out[:len(out) - len(nl)]
    return out, lines


def run(plan, R):
    if plan.get('rep', 1) > 1:
        plan = dict(plan, recs=[dict(r, f=r['f'] + k) for k in
                                range(plan['rep']) for r in plan['recs']])
        R.probe('long file')
    data, lines = text(plan)
    n_fields = len(fields(plan, plan['recs'][0]))
    need = n_fields - (2 if plan.get('extra') else 0)
    expect = list(range(len(plan['recs'])))
    must_fail = False
    if plan.get('cut') is not None:
        at = int(plan['cut'] * len(data))
        data = data[:at]
        expect = []
        for i, (a, b, c) in enumerate(lines):
            if at >= b:
                expect.append(i)
            elif at > a:
                part = data[a:at].decode('utf-8', 'replace')
                tabs = part.count('\t')
                if part.strip('\t') == '' and tabs < n_fields - 1:
                    # nothing but separators, or nothing at all
                    must_fail = None
                elif tabs < (need - 1 if not expect else n_fields - 1):
                    must_fail = True
                else:
                    must_fail = None    # cannot be told from a complete one
                break
            else:
                break
        if not expect and not must_fail:
            return
        R.fault('file:truncated')
        if must_fail is None:
            return
        try:
            data.decode('utf-8')
        except UnicodeDecodeError:
            return      # cut inside a character: an error of its own
    disk = simio.disk = simio.Disk()
    disk.put('/sim/in.event', data)
    kw = {}
    from kamrecsys import datasets as ds
    if any(c['how'] == 'sample' for c in plan['clients']):
        # the file that is loaded if none is named
        sample = os.path.normpath(ds.SAMPLE_PATH)
        disk.overlay = [sample]
        disk.dirs.add(sample)
        disk.put(os.path.join(sample, plan['loader'] + '.event'), data)
    before = disk.snapshot()
    dt = None if plan['dtype'] is None else np.dtype(DT[plan['dtype']])
    if plan['loader'] in ('score', 'event'):
        kw = {'n_otypes': plan['n_otypes'], 'event_otypes': plan['otypes'],
              'event_dtype': dt}
        if len(plan['recs']) % 3 == 1:
            # settings that are not given
            kw = {k: v for k, v in kw.items()
                  if v is not None and (k, v) != ('n_otypes', 2)}
        if plan['loader'] == 'score' and not plan.get('default_domain'):
            kw['score_domain'] = tuple(plan['domain'])
    elif plan['loader'] == 'flixster':
        kw = {'event_dtype': dt}
    fn = {'score': 'load_event_with_score', 'event': 'load_event',
          'flixster': 'load_flixster_rating',
          'pci': 'load_pci_sample'}[plan['loader']]

    def client(c):
        def go(proc):
            how = c['how']
            load = getattr(ds, fn)
            if how == 'sample':
                return load(**kw)
            if how == 'path':
                return load('/sim/in.event', **kw)
            if how == 'rb':
                with open('/sim/in.event', 'rb') as f:
                    return load(f, **kw)
            if how == 'r':
                with open('/sim/in.event', 'r', encoding='utf-8') as f:
                    return load(f, **kw)
            if how == 'stdin':
                return load(sys.stdin, **kw)
            if how == 'stdin.buffer':
                return load(sys.stdin.buffer, **kw)
            if how == 'bytesio':
                return load(io.BytesIO(data), **kw)
            if how == 'stringio':
                return load(io.StringIO(data.decode('utf-8', 'replace')),
                            **kw)
            if how == 'lines':
                return load(data.decode('utf-8', 'replace').splitlines(True),
                            **kw)
            # a failed attempt is followed by another one
            try:
                return load('/sim/in.event', **kw)
            except BaseException as e:
                if isinstance(e, simio.Crash) or not proc.faults_hit:
                    raise
                proc.faults_hit = 0
                R.probe('loaded again after a failure')
                return load('/sim/in.event', **kw)
        return go

    ps, trips = [], {}
    for i, c in enumerate(plan['clients']):
        f = [dict(c['fault'])] if c.get('fault') else []
        stdin = data if c['how'].startswith('stdin') else b''
        p = procs.Func(R, 'loader%d' % i, client(c), stdin=stdin,
                       ioplan=simio.IOPlan(f, c.get('rchunk', ()),
                                           bufsize=c.get('bufsize')))
        ps.append(p)
        if c.get('trip'):
            trips[i] = tuple(c['trip'])
    procs.run_procs(R, ps, plan['switches'], line_points=True, trips=trips)
    check(disk.snapshot() == before, 'input-changed',
          'loading changed the disk')
    for c, p in zip(plan['clients'], ps):
        tag = '%s of %s: ' % (fn, c['how'])
        if p.faults_hit and p.status == 0:
            raise Violation('failure-hidden', tag + 'reading failed, but a '
                            'container was returned')
        if p.status != 0:
            R.ev(p.name, 'failed', type(p.error).__name__)
            if not p.faults_hit and not must_fail:
                raise Violation('unexpected-error', tag + p.traceback)
            continue
        check(not must_fail, 'truncated', '%sa file cut inside a record was '
              'accepted: %r', tag, data[-60:])
        verify(plan, p.value, expect, tag)
        R.ev(p.name, 'loaded', len(expect), dig(p.value.event))
        if len(expect) == 1:
            R.probe('single record')


def verify(plan, d, idx, tag):
    r = refs.RefData(plan['n_otypes'], plan['otypes'])
    recs = [plan['recs'][i] for i in idx]
    dom = plan.get('domain')
    nl = None if dom is None else int(round((dom[1] - dom[0]) / dom[2])) + 1
    style = plan['style']
    r.fill([tuple(x['e']) for x in recs],
           None if dom is None else [float(num(x['s'], style))
                                     for x in recs], dom, nl,
           None if plan['dtype'] is None else [feature(plan, x)
                                               for x in recs])
    refs.check_events(d, r, tag)
    refs.check_ids(d, r, tag)
    if dom is not None:
        refs.check_scale(d, r, tag)
