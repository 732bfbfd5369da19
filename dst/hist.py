"""Histories of operations on event containers, with several callers, faults
and retries, checked against reference containers (C01, C02, C03)."""
import copy
import pickle

import numpy as np

from . import gen, refs
from .core import HarnessError, Violation, check
from .sched import Sched, count_points


# --- plans -----------------------------------------------------------------
def gen_cond(rng):
    return {'kind': rng.choice(['mask', 'mask', 'mask', 'list', 'index',
                                'index', 'perm', 'dup', 'all', 'none',
                                'one', 'extreme', 'user']),
            'seed': rng.randrange(10 ** 6)}


def gen_op(rng, focus, n_data):
    w = {'set': 2, 'filter': 6, 'feature': 1, 'binarize': 1, 'query': 3,
         'spoil': 0.5, 'digitize': 1, 'copy': 0.3, 'refuse': 0.4}
    if focus == 'C02':
        w.update(feature=3, spoil=3, query=0.5, digitize=0.3, binarize=1.5)
    elif focus == 'C03':
        w.update(binarize=4, digitize=4, query=0.2, feature=0.2, spoil=1.5)
    elif focus == 'C01':
        w.update(query=5, binarize=0.2, digitize=0.2)
    names = sorted(w)
    op = rng.choices(names, [w[n] for n in names])[0]
    o = {'op': op, 'slot': rng.randrange(3), 'own': rng.random() < 0.55}
    if op == 'set':
        o['data'] = rng.randrange(n_data)
        o['mutate'] = rng.random() < 0.5
        o['no_domain'] = rng.random() < 0.3
    elif op == 'filter':
        o['cond'] = gen_cond(rng)
        o['dst'] = rng.randrange(3)
        o['mutate'] = rng.random() < 0.5
    elif op == 'feature':
        o['otype'] = rng.randrange(3)
        o['salt'] = rng.randrange(50)
        o['mutate'] = rng.random() < 0.5
    elif op == 'binarize':
        o['thresh'] = rng.choice([None, None, 'level', 'level', 'between',
                                  'below', 'above'])
        o['seed'] = rng.randrange(1000)
    elif op in ('query', 'refuse'):
        o['seed'] = rng.randrange(10 ** 6)
    elif op == 'spoil':
        o['what'] = rng.choice(['event', 'score', 'event_feature', 'feature'])
        o['seed'] = rng.randrange(1000)
    elif op == 'digitize':
        o['seed'] = rng.randrange(10 ** 6)
    if op in ('set', 'filter', 'feature', 'binarize', 'query', 'digitize'):
        f = gen.fault(rng, 0.22)
        if f:
            o['fault'] = f
    return o


def generate(rng, idx, tier, focus):
    big = tier == 'thorough' and rng.random() < 0.3
    n_tasks = rng.choice([1, 1, 2, 2, 3])
    scored = True if focus == 'C03' else rng.random() < 0.75
    n_otypes = rng.choice([1, 2, 2, 2, 3])
    data = []
    first = gen.dataset(rng, scored=scored, n_otypes=n_otypes,
                        max_events=30 if big else 12,
                        max_objects=10 if big else 6)
    data.append(first)
    for _ in range(rng.randint(1, 3)):
        data.append(gen.dataset(rng, scored=scored, n_otypes=n_otypes,
                                otypes=first['otypes'],
                                max_events=30 if big else 12,
                                max_objects=10 if big else 6))
    n_ops = rng.randint(2, 12 if big else 7)
    plan = {
        'data': data,
        'scored': scored,
        'prologue': [gen_op(rng, focus, len(data))
                     for _ in range(rng.randint(0, 3))],
        'tasks': [[gen_op(rng, focus, len(data)) for _ in range(n_ops)]
                  for _ in range(n_tasks)],
        'switches': gen.switches(rng, rng.randint(3, 25)
                                 if n_tasks > 1 else 0)}
    return plan


SHRINK = [('switches',), ('prologue',), ('tasks', 0), ('tasks', 1),
          ('tasks', 2), ('data', 0, 'ev_sc'), ('data',)]


def simplify(plan):
    """Simplify faults, drop tasks and events."""
    import json
    for k in range(len(plan['tasks']) - 1, -1, -1):
        if len(plan['tasks']) > 1:
            c = json.loads(json.dumps(plan))
            del c['tasks'][k]
            yield c
    for i, d in enumerate(plan['data']):
        if len(d['ev']) > 1 and not d.get('auto'):
            n = len(d['ev'])
            for lo, hi in ((0, n // 2), (n // 2, n)):
                c = json.loads(json.dumps(plan))
                del c['data'][i]['ev'][lo:hi]
                if 'sc' in d:
                    del c['data'][i]['sc'][lo:hi]
                yield c
            if n <= 8:
                for j in range(n):
                    c = json.loads(json.dumps(plan))
                    del c['data'][i]['ev'][j]
                    if 'sc' in d:
                        del c['data'][i]['sc'][j]
                    yield c
        for key in ('ef', 'of'):
            if key in d:
                c = json.loads(json.dumps(plan))
                del c['data'][i][key]
                yield c
        if d.get('layout') != 'C':
            c = json.loads(json.dumps(plan))
            c['data'][i]['layout'] = 'C'
            yield c
    for path in ([('prologue',)] + [('tasks', i)
                                    for i in range(len(plan['tasks']))]):
        ops = plan
        for p in path:
            ops = ops[p]
        for j, o in enumerate(ops):
            for key in ('fault', 'mutate'):
                if o.get(key):
                    c = json.loads(json.dumps(plan))
                    t = c
                    for p in path:
                        t = t[p]
                    t[j].pop(key)
                    yield c


# --- execution -------------------------------------------------------------
class World(object):
    def __init__(self, plan, run, focus):
        self.plan = plan
        self.run = run
        self.focus = focus
        self.shared = []        # [(container, ref, data index)]
        self.owns = {}          # task number -> {slot: (container, ref)}
        self.all_tasks = []


def fill(plan, i, no_domain=False):
    """Arrays of data set i and the reference contents."""
    d = plan['data'][i]
    ev = gen.ev_array(d)
    ef = gen.ef_array(d)
    kw = {}
    sc = None
    n_levels = None
    dom = None
    if plan['scored']:
        sc = gen.sc_array(d)
        dom = d['domain']
        n_levels = int(round((dom[1] - dom[0]) / dom[2])) + 1
        if d.get('auto') and no_domain:
            dom_arg = None
            u = sorted(set(d['sc']))
            dom = [u[0], u[-1], min(b - a for a, b in zip(u, u[1:]))]
            dom[2] = round(dom[2], 6)
            n_levels = int(round((dom[1] - dom[0]) / dom[2])) + 1
        else:
            kind = len(d['ev']) % 3
            dom_arg = (tuple(dom) if kind == 0 else
                       list(dom) if kind == 1 else np.array(dom))
        kw['score_domain'] = dom_arg
    return d, ev, sc, ef, kw, dom, n_levels


def new_container(plan):
    from kamrecsys.data import EventData, EventWithScoreData
    d = plan['data'][0]
    cls = EventWithScoreData if plan['scored'] else EventData
    ot = d['otypes']
    if ot is not None and len(ot) % 2:
        ot = tuple(ot)
    return cls(n_otypes=d['n_otypes'], event_otypes=ot)


def call_set(c, plan, ev, sc, ef, kw):
    if plan['scored']:
        return c.set_event(ev, sc, event_feature=ef, **kw)
    return c.set_event(ev, event_feature=ef)


def scramble(a):
    """Overwrite an array of the caller."""
    if isinstance(a, list):
        for i, x in enumerate(a):
            if isinstance(x, list):
                scramble(x)
            else:
                a[i] = 'Q' if isinstance(x, str) else 99
        return
    if a is None or not isinstance(a, np.ndarray) or not a.flags.writeable:
        return
    if a.size == 0:
        return
    if a.dtype.names:
        for n in a.dtype.names:
            scramble(a[n])
        return
    if a.dtype.kind in 'iu':
        a[...] = 99
    elif a.dtype.kind == 'f':
        a[...] = -123.5
    elif a.dtype.kind == 'b':
        a[...] = ~a
    elif a.dtype.kind == 'U':
        a[...] = 'Q'


def rnd(seed):
    import random
    return random.Random(seed)


def make_cond(cond, ref):
    """(argument for filter_event, selected positions)."""
    n = len(ref.ev)
    r = rnd(cond['seed'])
    k = cond['kind']
    if k in ('index', 'perm', 'dup'):
        if k == 'index':
            idx = [i for i in range(n) if r.random() < 0.6]
        elif k == 'perm':
            idx = list(range(n))
            r.shuffle(idx)
            idx = idx[:r.randint(0, n)]
        else:
            idx = [r.randrange(n) for _ in range(r.randint(0, n))] if n else []
        a = np.array(idx, dtype=int)
        if r.random() < 0.3 and idx:
            return list(idx), idx
        if r.random() < 0.2:
            a = np.array([i - n for i in idx], dtype=int)
        return a, idx
    if k == 'all':
        m = [True] * n
    elif k == 'none':
        m = [False] * n
    elif k == 'one':
        m = [False] * n
        if n:
            m[r.randrange(n)] = True
    elif k == 'extreme' and ref.sc and not ref.spoiled:
        lo, hi = min(ref.sc), max(ref.sc)
        which = r.randrange(3)
        m = [not ((s == lo and which != 1) or (s == hi and which != 0))
             for s in ref.sc]
    elif k == 'user' and n:
        u = ref.ev[r.randrange(n)][0]
        m = [e[0] != u for e in ref.ev]
    else:
        m = [r.random() < 0.6 for _ in range(n)]
    idx = [i for i in range(n) if m[i]]
    if k == 'list' and n:
        return m, idx
    return np.array(m, dtype=bool), idx


class Actor(object):
    """Executes operations for one caller."""

    def __init__(self, world, tid, sched, task):
        self.w = world
        self.tid = tid
        self.sched = sched
        self.t = task
        self.own = world.owns.setdefault(tid, {})
        self.shared_ok = False

    # own slots hold [container, ref, snapshot-able]
    def pick(self, op, write):
        if not write and not op['own'] and self.w.shared:
            return self.w.shared[op['slot'] % len(self.w.shared)]
        keys = sorted(self.own)
        if not keys:
            if write or not self.w.shared:
                return None
            return self.w.shared[op['slot'] % len(self.w.shared)]
        return self.own[keys[op['slot'] % len(keys)]]

    def do(self, fn, op, dry=None):
        """Run one operation, with its fault if it has one.  Returns
        ('ok', value), ('fault', exc)."""
        fault = None
        f = op.get('fault')
        if f is not None:
            if self.sched is not None:
                with self.sched.quiet(self.t):
                    try:
                        n = count_points(dry or fn)
                    except Exception:
                        n = 0
            else:
                try:
                    n = count_points(dry or fn)
                except Exception:
                    n = 0
            if n > 0:
                fault = (1 + int(f['at'] * n), f['kind'])
        st, v = self.sched.call(self.t, fn, fault)
        self.w.run.ev(self.tid, op['op'], st, self.t.fired
                      if fault is not None else '')
        if st == 'exc':
            if fault is not None and self.t.fired is not None:
                return 'fault', v
            raise Violation('unexpected-error', '%s raised %r'
                            % (op['op'], v))
        return 'ok', v

    def run_op(self, op):
        getattr(self, 'op_' + op['op'])(op)
        with self.sched.quiet(self.t):
            self.check_mine(op['op'])

    def check_mine(self, what):
        for s in sorted(self.own):
            self.check_one(self.own[s], 'after %s: ' % what)
        for x in self.w.shared:
            self.check_one(x, 'after %s: shared container: ' % what)

    def check_one(self, x, tag):
        c, r = x[0], x[1]
        if r is None or r.spoiled or r.ev is None:
            return
        f = self.w.focus
        if f == 'C01':
            refs.check_ids(c, r, tag)
        elif f == 'C02':
            refs.check_events(c, r, tag)
        elif f == 'C03':
            refs.check_scores(c, r, tag)
            refs.check_scale(c, r, tag)

    # -- operations -----------------------------------------------------
    def op_set(self, op):
        w = self.w
        i = op['data'] % len(w.plan['data'])
        d, ev, sc, ef, kw, dom, nl = fill(w.plan, i, op.get('no_domain'))
        slot = op['slot'] % 3
        x = self.own.get(slot)
        if x is None:
            x = self.own[slot] = [new_container(w.plan), None]
        c = x[0]
        x[1] = None
        r = refs.RefData(d['n_otypes'], w.plan['data'][0]['otypes'])
        rows = [refs.py(e) for e in ev]
        r.fill(rows, None if sc is None else list(sc), dom, nl,
               None if ef is None else list(ef))

        if len(rows) % 5 == 2:
            # as lists
            ev = ev.tolist()
            if sc is not None and len(rows) % 2:
                sc = sc.tolist()

        def dry():
            c2 = copy.deepcopy(c)
            call_set(c2, w.plan, ev, sc, ef, kw)
        st, v = self.do(lambda: call_set(c, w.plan, ev, sc, ef, kw), op, dry)
        if st == 'fault':
            w.run.probe('set interrupted')
            with self.sched.quiet(self.t):
                self.check_mine('interrupted set')
            self.do(lambda: call_set(c, w.plan, ev, sc, ef, kw),
                    {'op': 'set again'})
        check([refs.py(e) for e in np.asarray(ev)] == rows, 'argument',
              'set_event modified the events of the caller')
        x[1] = r
        for o in range(d['n_otypes']):
            if str(o) in d.get('of', {}):
                e, f = gen.of_arrays(d, o)
                self.do(lambda: c.set_feature(o, e, f), {'op': 'feature'})
                r.set_feature(o, e, list(f))
                if op.get('mutate'):
                    scramble(f)
        if op.get('mutate'):
            w.run.probe('caller overwrites its arrays')
            scramble(ev)
            scramble(sc)
            scramble(ef)
            scramble(kw.get('score_domain'))

    def op_filter(self, op):
        w = self.w
        x = self.pick(op, False)
        if x is None or x[1] is None or x[1].spoiled:
            return
        c, r = x[0], x[1]
        arg, idx = make_cond(op['cond'], r)
        keep = copy.deepcopy(arg)
        st, v = self.do(lambda: c.filter_event(arg), op)
        if st == 'fault':
            w.run.probe('filter interrupted')
            with self.sched.quiet(self.t):
                self.check_mine('interrupted filter')
            st, v = self.do(lambda: c.filter_event(arg),
                            {'op': 'filter again'})
        check(np.array_equal(arg, keep), 'argument',
              'filter_event modified its argument')
        check(v is not None and v is not c, 'result',
              'filter_event returned %r', v)
        if op.get('mutate') and isinstance(arg, np.ndarray):
            arg[...] = ~arg if arg.dtype.kind == 'b' else 0
        w.run.mark('filter', op['cond']['kind'], len(idx) == 0)
        if not idx:
            w.run.probe('empty filter result')
        self.own[op['dst'] % 3] = [v, r.select(idx)]

    def op_copy(self, op):
        x = self.pick(op, False)
        if x is None or x[1] is None or x[1].spoiled:
            return
        with self.sched.quiet(self.t):
            # a copy, or saved and restored
            c = (copy.deepcopy(x[0]) if op['slot'] == 0 else
                 pickle.loads(pickle.dumps(x[0], 2 + op['slot'])))
        self.own[(op['slot'] + 1) % 3] = [c, x[1].copy()]

    def op_feature(self, op):
        w = self.w
        x = self.pick(op, True)
        if x is None or x[1] is None or x[1].spoiled:
            return
        c, r = x[0], x[1]
        o = op['otype'] % r.n_otypes
        ids = r.ids(o)
        rr = rnd(op['salt'])
        extra = ['q%d' % j if isinstance(ids[0], str) else 10 ** 7 + j
                 for j in range(rr.randint(0, 2))] if ids else []
        ids = ids + extra
        rr.shuffle(ids)
        if not ids:
            return
        e, f = gen.of_arrays({'of': {str(o): ids}}, o, op['salt'])
        st, v = self.do(lambda: c.set_feature(o, e, f), op,
                        lambda: copy.deepcopy(c).set_feature(o, e, f))
        if st == 'fault':
            self.do(lambda: c.set_feature(o, e, f), {'op': 'feature again'})
        r.set_feature(o, e, list(f))
        if op.get('mutate'):
            scramble(f)
            scramble(e)

    def op_binarize(self, op):
        w = self.w
        x = self.pick(op, True)
        if x is None or x[1] is None or x[1].spoiled or not w.plan['scored']:
            return
        c, r = x[0], x[1]
        rr = rnd(op['seed'])
        k = op['thresh']
        dom, n = r.domain, r.n_levels
        if k is None:
            arg = None
            thresh = ((dom[0] + dom[1]) / 2, 'center')
        else:
            lv = refs.ref_levels(dom, n)
            if k == 'level':
                arg = (rr.choice(r.sc) if r.sc and rr.random() < 0.7
                       else rr.choice(lv))
            elif k == 'between':
                j = rr.randrange(n - 1)
                arg = (lv[j] + lv[j + 1]) / 2
            elif k == 'below':
                arg = lv[0] - 1
            else:
                arg = lv[-1] + 1
            thresh = (arg, k == 'level')

        def fn():
            if arg is None:
                return c.binarize_score()
            return c.binarize_score(arg)

        def dry():
            c2 = copy.deepcopy(c)
            return (c2.binarize_score() if arg is None
                    else c2.binarize_score(arg))
        old = list(r.sc)
        st, v = self.do(fn, op, dry)
        if st == 'fault':
            # the container itself is half-way; all others must be intact
            w.run.probe('binarize interrupted')
            x[1] = None
            with self.sched.quiet(self.t):
                self.check_mine('interrupted binarize')
            for s in list(self.own):
                if self.own[s][1] is None:
                    del self.own[s]
            return
        acc = refs.ref_binarize(old, thresh)
        got = [refs.py(s) for s in c.score]
        check(len(got) == len(acc) and
              all(g in a for g, a in zip(got, acc)), 'binarize',
              'scores %r of domain %r with threshold %r become %r', old, dom,
              arg, got)
        r.sc = [int(g) for g in got]
        r.domain = [0.0, 1.0, 1.0]
        r.n_levels = 2

    def op_query(self, op):
        """Conversions with known and unknown ids."""
        w = self.w
        x = self.pick(op, False)
        if x is None or x[1] is None or x[1].spoiled:
            return
        c, r = x[0], x[1]
        rr = rnd(op['seed'])
        s = len(r.otypes)
        pools = [r.ids(o) for o in range(r.n_otypes)]
        strs = any(isinstance(k, str) for p in pools for k in p)
        unknown = (['??', '0x', 'zzz'] if strs else [-999, 10 ** 9, 777])
        if rr.random() < 0.5:
            unknown = unknown[:1] + gen.strangers(
                rr, sorted(set(k for p in pools for k in p)))
        rows = []
        for _ in range(rr.randint(1, 5)):
            row = []
            for e in range(s):
                p = pools[r.otypes[e]]
                row.append(rr.choice(p) if p and rr.random() < 0.6
                           else rr.choice(unknown))
            rows.append(row)
        missing = None
        if rr.random() < 0.4:
            missing = [rr.randint(-5, 50) for _ in range(s)]
        a = np.array(rows)
        if rr.random() < 0.3:
            a = a[0]
        keep = a.copy()
        m = (None if missing is None else
             np.array(missing) if rr.random() < 0.5 else list(missing))
        if missing is not None and rr.random() < 0.3:
            # the same for all elements
            m = rr.choice([int, np.int64])(missing[0])
            missing = [missing[0]] * s
        if rr.random() < 0.15:
            a = a.tolist()
        st, v = self.do(lambda: c.to_iid_event(a) if m is None
                        else c.to_iid_event(a, m), op)
        if st == 'fault':
            st, v = self.do(lambda: c.to_iid_event(a) if m is None
                            else c.to_iid_event(a, missing_values=m),
                            {'op': 'query again'})
        check(np.array_equal(a, keep), 'argument',
              'to_iid_event modified its argument')
        if self.w.focus == 'C01':
            want = []
            for row in (rows if np.ndim(a) == 2 else rows[:1]):
                out = []
                for e in range(s):
                    o = r.otypes[e]
                    if row[e] in pools[o]:
                        eid = [refs.py(k) for k in c.eid[o]]
                        out.append(eid.index(row[e]))
                    else:
                        out.append(len(pools[o]) if missing is None
                                   else missing[e])
                want.append(out)
            got = np.atleast_2d(v).tolist()
            check(got == want, 'ids',
                  'to_iid_event(%r, %r) is %r, expected %r', rows, missing,
                  got, want)
            if any(k not in pools[r.otypes[e]] for row in rows
                   for e, k in enumerate(row)):
                w.run.probe('unknown external id')
            with self.sched.quiet(self.t):
                refs.check_conversion(c, r, 'query: ')
                for o in range(r.n_otypes):
                    refs.expect_value_error(c.to_iid, o, unknown[0], 'query: ')
            # a conversion without quiet, so that callers overlap in it
            if len(r.ev):
                z = rr.random()
                x = c.event if z < 0.8 else c.event.tolist()
                st, back = self.do(lambda: c.to_eid_event(x),
                                   {'op': 'to_eid_event'})
                if z > 0.9:
                    st, one = self.do(lambda: c.to_eid_event(x[-1]),
                                      {'op': 'to_eid_event of one'})
                    check(refs.py(one) == r.ev[-1], 'ids', 'to_eid_event '
                          'of the last event is %r, expected %r',
                          refs.py(one), r.ev[-1])
                check([refs.py(q) for q in back] == r.ev, 'ids',
                      'to_eid_event(event) is %r, expected %r',
                      [refs.py(q) for q in back], r.ev)
                back[...] = back[0, 0]

    def op_digitize(self, op):
        w = self.w
        x = self.pick(op, False)
        if x is None or x[1] is None or x[1].spoiled or not w.plan['scored']:
            return
        c, r = x[0], x[1]
        rr = rnd(op['seed'])
        lv = refs.ref_levels(r.domain, r.n_levels)
        probe = []
        for _ in range(rr.randint(1, 8)):
            k = rr.random()
            v = rr.choice(lv)
            if k < 0.4:
                probe.append(v)
            elif k < 0.9:
                probe.append(v + (rr.random() - 0.5) * 0.98 * r.domain[2])
            else:
                probe.append(rr.choice([lv[0] - 7.25, lv[-1] + 7.25]))
        st, g = self.do(lambda: c.digitize_score(np.array(probe)), op)
        if st == 'fault':
            return
        for a, y in zip(probe, g):
            check(int(y) in refs.ref_digitize(a, r.domain, r.n_levels),
                  'digitize', 'score %r of domain %r is digitized to %r', a,
                  r.domain, int(y))
        st, g = self.do(lambda: c.digitize_score(), {'op': 'digitize own'})
        check(len(g) == len(r.sc), 'digitize', '%d digitized scores of %d',
              len(g), len(r.sc))
        for a, y in zip(r.sc, g):
            check(int(y) in refs.ref_digitize(a, r.domain, r.n_levels),
                  'digitize', 'score %r of domain %r is digitized to %r', a,
                  r.domain, int(y))
        st, lv2 = self.do(lambda: c.get_score_levels(), {'op': 'levels'})
        np.asarray(lv2)[...] = -77      # the caller's copy
        st, b = self.do(lambda: c.generate_score_bins(), {'op': 'bins'})
        b[...] = 0

    def op_refuse(self, op):
        """A request that can not be met is refused, and changes nothing."""
        from kamrecsys.data import EventData, EventWithScoreData
        w = self.w
        x = self.pick(op, True)
        if x is None or x[1] is None or x[1].spoiled:
            return
        c, r = x[0], x[1]
        rr = rnd(op['seed'])
        n, s = len(r.ev), len(r.otypes)
        o = rr.randrange(r.n_otypes)
        ids = r.ids(o)
        cls = EventWithScoreData if w.plan['scored'] else EventData
        no = r.n_otypes
        ways = {
            'filter by positions out of range': lambda: c.filter_event(
                np.array([0] * min(n, 1) + [rr.choice([n, n + 5, -n - 1])])),
            'filter by a short mask': lambda: c.filter_event(
                np.ones(max(n - 1, 0) if n > 1 else n + 2, dtype=bool)),
            'filter by a long mask': lambda: c.filter_event(
                np.zeros(n + 1, dtype=bool)),
            'feature of no type': lambda: c.set_feature(
                no, ids, np.arange(len(ids))),
            'no types': lambda: cls(n_otypes=rr.choice([0, -1])),
            'type out of range': lambda: cls(
                n_otypes=no, event_otypes=[0] * rr.randint(0, 2) + [no]),
            'type below zero': lambda: cls(
                n_otypes=no, event_otypes=[0] * rr.randint(0, 2) + [-1]),
            'nested types': lambda: cls(n_otypes=no, event_otypes=[[0]]),
            'ids of no type': lambda: c.to_eid(no, 0),
            'too many elements': lambda: c.to_iid_event(
                np.zeros((2, s + 1), dtype=int)),
            'too few dimensions': lambda: c.to_eid_event(np.array(0))}
        bad = {'events in one dimension': np.arange(max(s, 2)),
               'events of too few elements': np.zeros((3, s - 1), dtype=int),
               'events of too many elements': np.zeros((3, s + 1), dtype=int),
               'ids that can not be compared': np.array(
                   [['a'] * s, [1] * s], dtype=object),
               'ragged events': [[0] * s, [1] * (s + 1)]}
        good = np.arange(3 * s).reshape(3, s) + 5

        def refill(ev, sc, dom):
            if cls is EventData:
                return c.set_event(ev)
            return c.set_event(ev, sc, score_domain=dom)
        for k in bad:
            ways['set ' + k] = lambda k=k: refill(
                bad[k], np.array([1., 2., 3.]), rr.choice([None, (1, 3, 1)]))
        if cls is EventWithScoreData:
            for k, sc, dom in (('scores of one value', [2, 2, 2], None),
                               ('scores that are no numbers',
                                ['a', 'b', 'c'], None),
                               ('no scores', [], None),
                               ('a domain without a stride', [1, 2, 3],
                                (1, 3)),
                               ('a domain of stride zero', [1, 2, 3],
                                (1, 3, 0)),
                               ('a domain of one number', [1, 2, 3], 5)):
                ways['set ' + k] = lambda sc=sc, dom=dom: refill(good, sc, dom)
        if ids:
            ways['id out of range'] = lambda: c.to_eid(
                o, rr.choice([len(ids), -1, -len(ids), 10 ** 6]))
            ways['event out of range'] = lambda: c.to_eid_event(
                np.array([[len(r.ids(q)) + 3 for q in r.otypes]]))
        if len(ids) > 1:
            few = rr.randrange(1, len(ids))
            ways['feature of some objects'] = lambda: c.set_feature(
                o, ids[:few], np.arange(few))
        k = rr.choice(sorted(ways))
        st, v = self.sched.call(self.t, ways[k])
        w.run.ev(self.tid, 'refuse', k, st)
        if k.startswith('set '):
            # what is refused is up to the container, but it changes nothing
            if st != 'exc':
                x[1] = None
            else:
                w.run.probe('refused data change nothing')
            return
        check(st == 'exc', 'not-refused', '%s: gives %r', k, v)
        check(k not in ('no types', 'type out of range', 'type below zero',
                        'nested types', 'id out of range') or
              isinstance(v, ValueError), 'not-refused',
              '%s: raises %r', k, v)
        check(k != 'too many elements' or isinstance(v, TypeError),
              'not-refused', '%s: raises %r', k, v)
        w.run.probe('impossible request refused')

    def op_spoil(self, op):
        """The caller overwrites arrays of one of its own containers."""
        x = self.pick(op, True)
        if x is None or x[1] is None or x[1].spoiled:
            return
        c, r = x[0], x[1]
        what = op['what']
        a = getattr(c, what, None)
        if what == 'feature':
            for o in range(r.n_otypes):
                if c.feature[o] is not None:
                    scramble(c.feature[o])
        elif what == 'event':
            if c.event is not None and c.event.size:
                c.event[...] = 0
        else:
            scramble(a)
        self.w.run.probe('container overwritten: ' + what)
        x[1] = r.copy()
        x[1].spoiled = True


class _SoloSched(Sched):
    pass


def execute(plan, run, focus):
    w = World(plan, run, focus)

    # prologue: one caller makes the shared containers
    sched = Sched(run, [])

    def pro(t):
        a = Actor(w, -1, sched, t)
        a.run_op({'op': 'set', 'slot': 0, 'own': True, 'data': 0,
                  'mutate': False, 'no_domain': True})
        for op in plan['prologue']:
            op = dict(op)
            op.setdefault('own', True)
            a.run_op(op)
    sched.spawn(pro)
    sched.run()
    for s in sorted(w.owns[-1]):
        x = w.owns[-1][s]
        if x[1] is not None and not x[1].spoiled:
            w.shared.append(x)
    w.owns[-1] = {}

    sched = Sched(run, plan['switches'])

    def body(k):
        def f(t):
            a = Actor(w, k, sched, t)
            if not w.shared:
                a.run_op({'op': 'set', 'slot': 0, 'own': True, 'data': 0,
                          'mutate': False})
            for op in plan['tasks'][k]:
                run.mark(k, op['op'])
                a.run_op(op)
        return f
    for k in range(len(plan['tasks'])):
        sched.spawn(body(k))
    sched.run()

    # quiescence: everything is as its reference says
    sched = Sched(run, [])

    def end(t):
        for k in sorted(w.owns):
            a = Actor(w, k, sched, t)
            with sched.quiet(t):
                a.check_mine('the end')
                for s in sorted(a.own):
                    x = a.own[s]
                    if x[1] is None or x[1].spoiled:
                        continue
                    if focus == 'C01':
                        refs.check_conversion(x[0], x[1], 'at the end: ')
                    from .core import dig
                    run.ev('final', k, s, dig([x[0].event, x[0].n_objects,
                                               list(x[0].eid)]))
    sched.spawn(end)
    sched.run()
