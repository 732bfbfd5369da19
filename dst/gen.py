"""Generators of plans: data sets, schedules and faults (all JSON)."""
import numpy as np

KINDS = ['interrupt', 'memory', 'error']
#: also the errors that numerical routines, data and the system produce
MORE = KINDS * 4 + ['exit', 'value', 'value', 'type', 'key', 'index', 'fp',
                    'zero', 'overflow', 'linalg', 'linalg', 'assertion',
                    'notimplemented', 'warning', 'os', 'recursion', 'eof']
ERRNO = ['EIO', 'EIO', 'EIO', 'EACCES', 'ENOENT', 'EPIPE', 'EMFILE', 'ESTALE',
         'EDQUOT', 'EFBIG', 'EPERM', 'EROFS', 'ETIMEDOUT', 'EBADF', 'ENOTCONN']
WORDS = ['a', 'b', 'zz', 'Ann', 'bob', u'\u00e9t\u00e9', u'\u5bff\u53f8', 'x y',
         'long-name-17', '0', '10', '9', 'B', '_', 'tab', u'\u03b1']


def switches(rng, n, lo=1, hi=120):
    """Context switches: after `gap` points hand the baton to task `pick`."""
    return [[max(1, int(rng.choice([1, 2, 3, 5, 9]) if rng.random() < 0.3
                        else rng.randint(lo, hi))), rng.randint(0, 3)]
            for _ in range(n)]


def fault(rng, p=0.3, kinds=MORE):
    """A fault at a fraction of an operation, or None."""
    if rng.random() >= p:
        return None
    f = rng.random()
    if rng.random() < 0.25:
        f = rng.choice([0.0, 0.999, 0.5, 0.9])
    return {'at': round(f, 4), 'kind': rng.choice(kinds)}


def id_pool(rng, n, kind=None):
    kind = kind or rng.choice(KINDS_OF_IDS)
    if kind == 'small':
        pool = list(range(n))
    elif kind == 'gaps':
        pool = rng.sample(range(1, 40 * n + 10), n)
    elif kind == 'neg':
        pool = rng.sample(range(-3 * n - 3, 3 * n + 3), n)
    elif kind == 'big':
        # neighbours, which do not survive a detour through floats
        base = rng.choice([2 ** 40, 2 ** 31 - 2, 2 ** 53, 2 ** 62])
        pool = rng.sample(range(base, base + rng.choice([2, 100]) * n), n)
        if rng.random() < 0.5:
            pool[0] = -2 ** 41
    elif kind == 'float':
        pool = rng.sample([x / 8.0 for x in range(-20, 60 + 2 * n)] + [
            0.3, 0.1 + 0.2, 1e300, 1e-300, 2.0 ** 53], n)
    elif kind == 'str':
        base = list(WORDS)
        while len(base) < n:
            base.append('w%d' % len(base))
        pool = rng.sample(base, n)
    else:
        raise ValueError(kind)
    return pool, kind


def strangers(rng, pool):
    """Ids close to those of `pool` (some may be in it)."""
    out = []
    for k in pool:
        if isinstance(k, str):
            out += [k + rng.choice(['x', 'zz', '-and-much-longer', ' ', '0']),
                    k[:-1] or '?', k.swapcase()]
        else:
            out += [k + 1, k - 1, -k]
            out += [x for x in (k + 2 ** 32, k - 2 ** 32, k + 2 ** 16,
                                k + 2 ** 8) if abs(x) < 2 ** 63]
    return out


def domain(rng):
    """(min, max, stride, number of levels) of a score scale."""
    stride = rng.choice([1, 1, 1, 0.5, 0.1, 2, 0.25, 10, 0.2, 0.3])
    n = rng.randint(2, 12)
    if rng.random() < 0.04:
        n = rng.choice([20, 41, 51, 101])
    lo = rng.choice([0, 1, 1, 1, -5, 0.5, 10, -1, 0.1])
    lo = float(lo)
    hi = round(lo + stride * (n - 1), 6)
    return [lo, hi, float(stride)], n


def level(dom, j):
    return round(dom[0] + j * dom[2], 6)


def dataset(rng, max_events=14, max_objects=6, kind=None, n_otypes=None,
            otypes='?', scored=True, binary=False, min_events=1,
            auto_domain=True, feature=True):
    """An event table with scores, event features and object features."""
    if n_otypes is None:
        n_otypes = rng.choice([1, 2, 2, 2, 2, 3])
    if otypes == '?':
        r = rng.random()
        if r < 0.6:
            otypes = None
        else:
            otypes = list(range(n_otypes))
            for _ in range(rng.randint(0, 2)):
                otypes.append(rng.randrange(n_otypes))
            rng.shuffle(otypes)
            if rng.random() < 0.15 and n_otypes > 1 and len(otypes) > 1:
                otypes = [o for o in otypes if o != otypes[0]] or otypes
    real = list(range(n_otypes)) if otypes is None else otypes
    kind = kind or rng.choice(KINDS_OF_IDS)
    pools = [id_pool(rng, rng.randint(1, max_objects), kind)[0]
             for _ in range(n_otypes)]
    n = rng.randint(min_events, max_events)
    if rng.random() < 0.1:
        n = min_events
    ev = [[rng.choice(pools[o]) for o in real] for _ in range(n)]
    d = {'n_otypes': n_otypes, 'otypes': otypes, 'ev': ev, 'kind': kind}
    if scored:
        if binary:
            d['domain'] = [0, 1, 1]
            d['sc'] = [rng.randint(0, 1) for _ in range(n)]
            if n >= 2:
                d['sc'][rng.randrange(n)] = 0
                k = d['sc'].index(0)
                d['sc'][(k + 1) % n] = 1
        else:
            dom, nl = domain(rng)
            d['domain'] = dom
            d['sc'] = [level(dom, rng.randrange(nl)) for _ in range(n)]
            d['auto'] = bool(auto_domain and n >= 4 and rng.random() < 0.25)
            if d['auto']:
                # a domain can be estimated only from such scores
                d['sc'][0], d['sc'][1] = level(dom, 0), level(dom, 1)
                d['sc'][2] = level(dom, nl - 1)
    if feature and rng.random() < 0.6:
        d['ef'] = rng.choice(['struct', 'plain', 'flat', 'struct2'])
    if feature and rng.random() < 0.7:
        d['of'] = {}
        for o in range(n_otypes):
            if rng.random() < 0.7:
                extra = [x for x in id_pool(
                    rng, max_objects, kind)[0] if x not in pools[o]][:2]
                ids = list(pools[o]) + extra
                rng.shuffle(ids)
                d['of'][str(o)] = ids
    d['layout'] = rng.choice(['C', 'C', 'C', 'F', 'view', 'ro', 'i32', 'i16',
                              'u1', 'u8', 'be', 'obj'])
    return d


KINDS_OF_IDS = ['small', 'small', 'gaps', 'neg', 'big', 'str'] * 3 + ['float']
DTYPES = {'i32': np.int32, 'i16': np.int16, 'u1': np.uint8, 'u8': np.uint64,
          'be': '>i8'}


# --- arrays from plans ---------------------------------------------------------
def ev_array(d, rows=None):
    rows = d['ev'] if rows is None else rows
    s = d['n_otypes'] if d['otypes'] is None else len(d['otypes'])
    if d['kind'] == 'str':
        if rows:
            a = np.array(rows)
        else:
            a = np.empty((0, s), dtype='U4')
    else:
        a = np.array(rows, dtype=float if d['kind'] == 'float' else np.int64)
        a = a.reshape(len(rows), s)
    lay = d.get('layout', 'C')
    if lay == 'F':
        a = np.asfortranarray(a)
    elif lay == 'view':
        b = np.empty((a.shape[0] * 2, s + 1), dtype=a.dtype)
        b[:] = a.ravel()[0] if a.size else 0
        b[::2, :s] = a
        a = b[::2, :s]
    elif lay == 'ro':
        a.setflags(write=False)
    elif lay == 'obj':
        a = a.astype(object)
    elif lay in DTYPES and a.dtype.kind == 'i':
        # the ids of a container come in one type
        lo, hi = limits(d)
        t = np.dtype(DTYPES[lay])
        if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max:
            a = a.astype(t)
    return a


def limits(d):
    ids = [x for r in d['ev'] for x in r]
    return (min(ids), max(ids)) if ids else (0, 0)


def sc_array(d):
    sc = d['sc']
    if all(float(x).is_integer() for x in sc) and len(sc) % 2:
        return np.array([int(x) for x in sc])
    return np.array(sc, dtype=float)


def ef_array(d):
    n = len(d['ev'])
    k = d.get('ef')
    if k is None:
        return None
    if k == 'struct':
        a = np.zeros(n, dtype=np.dtype([('timestamp', int)]))
        a['timestamp'] = 1000 + 7 * np.arange(n)
    elif k == 'struct2':
        a = np.zeros(n, dtype=np.dtype([('timestamp', int), ('w', float),
                                        ('v', float, 2)]))
        a['timestamp'] = 1000 + 3 * np.arange(n)
        a['w'] = np.arange(n) / 8.0
        a['v'] = np.arange(2 * n).reshape(n, 2)
    elif k == 'flat':
        a = np.arange(n) * 1.5 + 0.25
    else:
        a = np.c_[np.arange(n), 100 + np.arange(n), -np.arange(n)]
    return a


def of_arrays(d, o, salt=0):
    """(external ids, features) given for object type `o`."""
    ids = d['of'][str(o)]
    e = np.array(ids)
    if salt % 2:
        f = np.zeros(len(ids), dtype=np.dtype([('a', int), ('n', 'U8')]))
        f['a'] = 50 * (o + 1) + np.arange(len(ids)) + salt * 1000
        f['n'] = ['n%d' % (i + salt) for i in range(len(ids))]
    else:
        f = np.c_[50 * (o + 1) + np.arange(len(ids)) + salt * 1000,
                  -np.arange(len(ids))]
    return e, f
