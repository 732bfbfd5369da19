"""Core of the simulator: violations, statistics of a run, helpers."""
import hashlib
import json
import struct
from collections import Counter

import numpy as np


class Violation(Exception):
    """The property under check does not hold in this run."""

    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself is wrong (never a verdict on the code)."""


class Injected(object):
    """Mixin marking exceptions raised by the simulator as faults."""


class InjInterrupt(KeyboardInterrupt, Injected):
    pass


class InjMemoryError(MemoryError, Injected):
    pass


class InjError(RuntimeError, Injected):
    pass


class InjExit(SystemExit, Injected):
    pass


EXC = {'interrupt': InjInterrupt, 'memory': InjMemoryError, 'error': InjError,
       'exit': InjExit}


def _more():
    # the errors numerical code, data and the operating system produce
    for name, cls in [('value', ValueError), ('type', TypeError),
                      ('key', KeyError), ('index', IndexError),
                      ('fp', FloatingPointError), ('zero', ZeroDivisionError),
                      ('overflow', OverflowError),
                      ('linalg', np.linalg.LinAlgError),
                      ('assertion', AssertionError),
                      ('notimplemented', NotImplementedError),
                      ('warning', RuntimeWarning), ('os', OSError),
                      ('recursion', RecursionError), ('eof', EOFError)]:
        EXC[name] = type('Inj' + cls.__name__, (cls, Injected), {})


_more()


def injected(e):
    """Whether `e` is an injected error, or reports one as its cause."""
    for _ in range(20):
        if e is None or isinstance(e, Injected):
            return e is not None
        c = e.__cause__ or e.__context__
        if isinstance(c, (KeyboardInterrupt, SystemExit)):
            return False        # has been turned into something else
        e = c
    return False


class Run(object):
    """Everything observed in one simulated run."""

    def __init__(self):
        self.log = hashlib.sha256()
        self.trace = hashlib.sha256()
        self.n_log = 0
        self.n_procs = 0
        self.faults = Counter()
        self.probes = Counter()
        self.sim_time = 0.0
        self.steps = 0
        self.switches = 0
        self.tail = []

    def ev(self, *args):
        """Append an event to the log of the run."""
        s = ' '.join(str(a) for a in args)
        self.log.update(s.encode('utf-8', 'backslashreplace') + b'\n')
        self.n_log += 1
        self.tail.append(s[:300])
        if len(self.tail) > 60:
            del self.tail[:20]

    def mark(self, *args):
        """Record something that distinguishes this execution's shape."""
        self.trace.update(repr(args).encode())

    def fault(self, kind):
        self.faults[kind] += 1

    def probe(self, kind):
        self.probes[kind] += 1

    def digest(self):
        return self.log.hexdigest()[:24]

    def shape(self):
        return self.trace.hexdigest()[:16]


def check(cond, kind, msg='', *args):
    if not cond:
        raise Violation(kind, (msg % args) if args else msg)


# --- canonical digests -------------------------------------------------------
def _feed(h, x):
    if x is None:
        h.update(b'N')
    elif isinstance(x, (bool, np.bool_)):
        h.update(b'b1' if x else b'b0')
    elif isinstance(x, (int, np.integer)):
        h.update(b'i%d' % int(x))
    elif isinstance(x, (float, np.floating)):
        h.update(b'f' + struct.pack('<d', float(x)))
    elif isinstance(x, str):
        h.update(b's' + x.encode('utf-8', 'backslashreplace') + b'\0')
    elif isinstance(x, bytes):
        h.update(b'y' + x + b'\0')
    elif isinstance(x, np.ndarray):
        h.update(b'a' + repr(x.shape).encode())
        if x.dtype.names is not None:
            for n in x.dtype.names:
                h.update(n.encode())
                _feed(h, x[n])
        elif x.dtype.kind == 'O':
            for v in x.ravel():
                _feed(h, v)
        elif x.dtype.kind == 'f':
            h.update(b'f' + np.ascontiguousarray(x, dtype='<f8').tobytes())
        elif x.dtype.kind in 'iub':
            h.update(b'i' + np.ascontiguousarray(x).astype('<i8').tobytes())
        else:
            for v in x.ravel().tolist():
                _feed(h, v)
    elif isinstance(x, np.void):
        _feed(h, np.asarray(x))
    elif isinstance(x, dict):
        h.update(b'{')
        for k in sorted(x, key=lambda k: (str(type(k)), str(k))):
            _feed(h, k)
            _feed(h, x[k])
        h.update(b'}')
    elif isinstance(x, (list, tuple)):
        h.update(b'[')
        for v in x:
            _feed(h, v)
        h.update(b']')
    else:
        h.update(repr(x).encode())


def dig(x):
    """Digest of a value by contents (bit-exact for floats)."""
    h = hashlib.sha256()
    _feed(h, x)
    return h.hexdigest()[:16]


# --- minimisation ------------------------------------------------------------
def shrink_lists(plan, paths):
    """Candidates of `plan` with elements of the lists at `paths` removed:
    halves first, then quarters, and finally single elements."""
    for path in paths:
        lst = get_path(plan, path)
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                cand = json.loads(json.dumps(plan))
                tgt = get_path(cand, path)
                del tgt[start:start + size]
                yield cand
            size //= 2


def get_path(plan, path):
    x = plan
    for p in path:
        try:
            x = x[p]
        except (KeyError, IndexError, TypeError):
            return None
    return x
