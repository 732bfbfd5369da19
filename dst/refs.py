"""Small executable reference models."""
import numpy as np

from .core import check, dig


def py(x):
    """Plain Python value of an element of an array."""
    if isinstance(x, np.void):
        return tuple(py(v) for v in x.tolist())
    if isinstance(x, np.ndarray):
        return tuple(py(v) for v in x.tolist())
    if isinstance(x, (list, tuple)):
        return tuple(py(v) for v in x)
    if isinstance(x, np.generic):
        return x.item()
    return x


class RefData(object):
    """What a container must contain."""

    def __init__(self, n_otypes, otypes):
        self.n_otypes = n_otypes
        self.otypes = list(range(n_otypes)) if otypes is None else list(otypes)
        self.ev = None
        self.sc = None
        self.ef = None
        self.of = [None] * n_otypes      # dict external id -> feature
        self.domain = None
        self.n_levels = None
        self.spoiled = False

    def fill(self, ev, sc=None, domain=None, n_levels=None, ef=None):
        self.ev = [py(r) for r in ev]
        self.sc = None if sc is None else [py(s) for s in sc]
        self.domain = None if domain is None else [float(x) for x in domain]
        self.n_levels = n_levels
        self.ef = None if ef is None else [py(r) for r in ef]
        self.of = [None] * self.n_otypes
        self.spoiled = False

    def ids(self, o):
        return sorted(set(r[e] for r in self.ev
                          for e in range(len(self.otypes))
                          if self.otypes[e] == o))

    def copy(self):
        r = RefData(self.n_otypes, self.otypes)
        r.__dict__.update(self.__dict__)
        r.of = list(self.of)
        return r

    def select(self, idx):
        r = self.copy()
        r.ev = [self.ev[i] for i in idx]
        r.sc = None if self.sc is None else [self.sc[i] for i in idx]
        r.ef = None if self.ef is None else [self.ef[i] for i in idx]
        return r

    def set_feature(self, o, eids, feats):
        self.of[o] = {py(k): py(f) for k, f in zip(eids, feats)}


def check_ids(d, r, tag=''):
    """C01: numbering and conversions of a container (or a trained model)."""
    for o in range(r.n_otypes):
        ids = r.ids(o)
        n = len(ids)
        check(int(d.n_objects[o]) == n, 'ids',
              '%s%d objects of type %d, expected %d', tag, d.n_objects[o], o, n)
        eid = [py(x) for x in d.eid[o]]
        check(len(eid) == n and len(set(eid)) == n and set(eid) == set(ids),
              'ids', '%sexternal ids of type %d are %r, expected %r', tag, o,
              eid, ids)
        iid = d.iid[o]
        check(len(iid) == n, 'ids', '%stable of type %d has %d entries, '
              'expected %d', tag, o, len(iid), n)
        for i, k in enumerate(eid):
            check(k in iid and int(iid[k]) == i, 'ids',
                  '%sexternal id %r of type %d is converted to %r instead of '
                  '%d', tag, k, o, iid.get(k), i)
    if d.event is not None:
        s = len(r.otypes)
        check(d.event.shape == (len(r.ev), s), 'ids',
              '%sshape of events is %r, expected %r', tag, d.event.shape,
              (len(r.ev), s))
        check(int(d.n_events) == len(r.ev), 'ids', '%sn_events is %r, '
              'expected %d', tag, d.n_events, len(r.ev))
        for o in range(r.n_otypes):
            cols = [e for e in range(s) if r.otypes[e] == o]
            used = set(int(x) for e in cols for x in d.event[:, e])
            check(used == set(range(len(r.ids(o)))), 'ids',
                  '%sinternal ids of type %d are %r', tag, o, sorted(used))
        back = [tuple(py(d.eid[r.otypes[e]][row[e]]) for e in range(s))
                for row in d.event]
        check(back == r.ev, 'ids', '%sevents are %r, expected %r', tag, back,
              r.ev)


def check_conversion(d, r, tag=''):
    """C01: the conversion methods agree with the tables."""
    s = len(r.otypes)
    for o in range(r.n_otypes):
        for i in range(len(d.eid[o])):
            k = d.to_eid(o, i)
            check(py(k) == py(d.eid[o][i]), 'ids', '%sto_eid(%d, %d) is %r',
                  tag, o, i, k)
            check(int(d.to_iid(o, k)) == i, 'ids',
                  '%sto_iid(%d, %r) is %r instead of %d', tag, o, k,
                  d.to_iid(o, k), i)
        for bad in (len(d.eid[o]), len(d.eid[o]) + 3, -1, -len(d.eid[o])):
            if bad == 0:
                continue
            expect_value_error(d.to_eid, o, bad, tag)
    if d.event is not None and len(r.ev):
        back = d.to_eid_event(d.event)
        check([py(x) for x in back] == r.ev, 'ids',
              '%sto_eid_event(event) is %r, expected %r', tag,
              [py(x) for x in back], r.ev)
        fwd = d.to_iid_event(np.array(back))
        check(np.array_equal(fwd, d.event), 'ids',
              '%sto_iid_event(to_eid_event(event)) is %r instead of %r', tag,
              fwd.tolist(), d.event.tolist())
        one = d.to_eid_event(d.event[0])
        check(py(one) == r.ev[0], 'ids', '%sto_eid_event of one event is %r '
              'instead of %r', tag, py(one), r.ev[0])
        one = d.to_iid_event(back[-1])
        check(py(one) == py(d.event[-1]), 'ids',
              '%sto_iid_event of one event is %r', tag, py(one))


def expect_value_error(fn, o, x, tag):
    try:
        v = fn(o, x)
    except ValueError:
        return
    check(False, 'ids', '%s%s(%d, %r) returned %r instead of an error', tag,
          getattr(fn, '__name__', fn), o, x, v)


def check_events(d, r, tag=''):
    """C02: events with their scores, event features and object features."""
    s = len(r.otypes)
    check(d.event.shape == (len(r.ev), s), 'events',
          '%sshape of events is %r, expected %r', tag, d.event.shape,
          (len(r.ev), s))
    back = [tuple(py(d.eid[r.otypes[e]][row[e]]) for e in range(s))
            for row in d.event]
    check(back == r.ev, 'events', '%sevents are %r, expected %r', tag, back,
          r.ev)
    check(int(d.n_events) == len(r.ev), 'events', '%sn_events is %r, expected '
          '%d', tag, d.n_events, len(r.ev))
    for o in range(r.n_otypes):
        got = [py(x) for x in d.eid[o]]
        check(sorted(got) == r.ids(o) and int(d.n_objects[o]) == len(got),
              'objects', '%sobjects of type %d are %r, expected %r', tag, o,
              got, r.ids(o))
        f = d.feature[o]
        if r.of[o] is None:
            check(f is None, 'features', '%sfeature of type %d is %r, expected '
                  'none', tag, o, f)
        else:
            check(f is not None and len(f) == len(got), 'features',
                  '%sfeature of type %d has %s rows, expected %d', tag, o,
                  None if f is None else len(f), len(got))
            for i, k in enumerate(got):
                check(py(f[i]) == r.of[o][k], 'features',
                      '%sfeature of object %r of type %d is %r, expected %r',
                      tag, k, o, py(f[i]), r.of[o][k])
    if r.ef is None:
        check(d.event_feature is None, 'event-features',
              '%sevent feature is %r, expected none', tag, d.event_feature)
    else:
        got = (None if d.event_feature is None
               else [py(x) for x in d.event_feature])
        check(got == r.ef, 'event-features',
              '%sevent features are %r, expected %r', tag, got, r.ef)
    check_scores(d, r, tag)


def check_scores(d, r, tag=''):
    if r.sc is None:
        check(getattr(d, 'score', None) is None, 'scores',
              '%sscores are %r, expected none', tag, getattr(d, 'score', None))
    else:
        got = None if d.score is None else [py(x) for x in d.score]
        check(got == r.sc, 'scores', '%sscores are %r, expected %r', tag, got,
              r.sc)


def ref_levels(domain, n):
    return [domain[0] + (domain[1] - domain[0]) * j / (n - 1)
            for j in range(n)]


def ref_digitize(x, domain, n):
    """Set of acceptable indexes of the nearest level."""
    lv = ref_levels(domain, n)
    ds = [abs(x - v) for v in lv]
    m = min(ds)
    tol = 1e-6 * domain[2]
    return set(i for i in range(n) if ds[i] <= m + tol)


def check_scale(d, r, tag='', probe=None):
    """C03: one score scale, however it is asked for."""
    dom = [float(x) for x in d.score_domain]
    n = r.n_levels
    check(len(dom) == 3 and all(abs(a - b) <= 1e-9 * max(1, abs(b))
                                for a, b in zip(dom, r.domain)),
          'scale', '%sscore domain is %r, expected %r', tag, dom, r.domain)
    check(int(d.n_score_levels) == n, 'scale',
          '%snumber of levels is %r, expected %d (domain %r)', tag,
          d.n_score_levels, n, dom)
    lv = np.asarray(d.get_score_levels(), dtype=float)
    ref = ref_levels(r.domain, n)
    tol = 1e-6 * r.domain[2]
    check(lv.shape == (n,) and np.allclose(lv, ref, rtol=0, atol=tol),
          'scale', '%slevels are %r, expected %r', tag, lv.tolist(), ref)
    bins = np.asarray(d.generate_score_bins(), dtype=float)
    mid = [(a + b) / 2 for a, b in zip(ref[1:], ref[:-1])]
    check(bins.shape == (n + 1,) and bins[0] == -np.inf and
          bins[-1] == np.inf and np.allclose(bins[1:-1], mid, rtol=0,
                                             atol=tol),
          'scale', '%sbins are %r, expected [-inf] + %r + [inf]', tag,
          bins.tolist(), mid)
    if r.sc is not None:
        g = d.digitize_score()
        check(len(g) == len(r.sc), 'digitize', '%s%d digitized scores of %d',
              tag, len(g), len(r.sc))
        for x, y in zip(r.sc, g):
            check(int(y) in ref_digitize(x, r.domain, n), 'digitize',
                  '%sscore %r of domain %r is digitized to %r', tag, x,
                  r.domain, int(y))
    if probe is not None:
        a = np.array(probe, dtype=float)
        keep = a.copy()
        g = d.digitize_score(a)
        check(np.array_equal(a, keep), 'digitize', '%sargument was modified',
              tag)
        for x, y in zip(probe, g):
            check(int(y) in ref_digitize(x, r.domain, n), 'digitize',
                  '%sscore %r of domain %r is digitized to %r', tag, x,
                  r.domain, int(y))


def snap(d):
    """Digest of everything a container (or model) shows."""
    return dig({k: v for k, v in sorted(vars(d).items())})


def ref_binarize(sc, thresh):
    """List of sets of acceptable binary scores."""
    out = []
    for x in sc:
        if thresh[1] == 'center' and abs(x - thresh[0]) < 1e-9:
            out.append({0})
        elif thresh[1] and abs(x - thresh[0]) < 1e-9 and x != thresh[0]:
            out.append({0, 1})
        else:
            out.append({0} if x <= thresh[0] else {1})
    return out
