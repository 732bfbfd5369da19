"""The surroundings of a run: settings of the process that belong to whoever
uses the library.  They must make no difference to what the library does (they
vary in a part of the runs of every check), and the library must leave them as
they are (C09)."""
import builtins
import decimal
import gc
import io
import json
import locale
import logging
import math
import os
import random
import resource
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np
import scipy.optimize
import scipy.special
import sklearn
import sklearn.utils

from . import seams, simio

LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR,
          logging.CRITICAL]
ENCODINGS = ['ascii', 'latin-1', 'cp1252', 'cp932', 'utf-8-sig']
MODULES = (builtins, math, os, io, json, random, np, np.random, np.linalg,
           scipy.optimize, scipy.special, sklearn.utils, logging, warnings)
_LIMITS = [getattr(resource, k) for k in sorted(vars(resource))
           if k.startswith('RLIMIT_')]
TEXT = ('C11', 'C13', 'C14', 'C15', 'C16', 'C17')


def gen(rng, pid, plan=None):
    """Surroundings; {} are the usual ones."""
    a = {}

    def some(p, name, fn):
        if rng.random() < p:
            a[name] = fn()
    some(.4, 'err', lambda: {k: rng.choice(['ignore', 'warn', 'warn'])
                             for k in ('divide', 'over', 'under', 'invalid')})
    some(.4, 'print', lambda: {'precision': rng.choice([1, 2, 17]),
                               'threshold': rng.choice([0, 3, 5]),
                               'edgeitems': rng.choice([1, 2]),
                               'suppress': rng.random() < .5,
                               'linewidth': rng.choice([8, 20, 500])})
    some(.3, 'filters', lambda: [rng.choice(['always', 'default', 'once',
                                             'module'])
                                 for _ in range(rng.randint(1, 2))])
    some(.4, 'root', lambda: rng.choice(LEVELS))
    some(.4, 'level', lambda: rng.choice(LEVELS))
    some(.15, 'disable', lambda: rng.choice(LEVELS))
    some(.4, 'env', lambda: {k: rng.choice(['', 'C', '7', 'de_DE.UTF-8',
                                            '/nowhere', 'UTC+9'])
                             for k in rng.sample(
                                 ['LANG', 'COLUMNS', 'LINES', 'HOME', 'DEBUG',
                                  'KAMRECSYS', 'PYTHONWARNINGS', 'TMPDIR',
                                  'USER', 'TERM'], rng.randint(1, 3))} |
         {k: rng.choice(['1', '2', '64'])
          for k in rng.sample(['OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS',
                               'NUMEXPR_MAX_THREADS', 'LOKY_MAX_CPU_COUNT',
                               'SLURM_CPUS_PER_TASK'], rng.choice([0, 1]))})
    some(.3, 'random', lambda: rng.randrange(10 ** 6))
    some(.5, 'nprandom', lambda: rng.randrange(10 ** 6))
    some(.3, 'cpus', lambda: rng.choice([1, 2, 3, 64]))
    some(.5, 'clock', lambda: [rng.choice([0, 1, 1.7e9, 2.2e9, 4.2e9]),
                               rng.choice([1, 1000, 10 ** 6, 6 * 10 ** 7,
                                           3600 * 10 ** 6])])
    some(.3, 'cwd', lambda: rng.choice(['/', '/tmp', '/usr']))
    some(.2, 'prec', lambda: rng.choice([2, 5, 60]))
    some(.15, 'gc', lambda: rng.choice([50, 300, 5000]))
    some(.2, 'recursion', lambda: rng.choice([900, 3000]))
    some(.2, 'umask', lambda: rng.choice([0o077, 0, 0o27]))
    if pid in TEXT and (plan is None or plain(plan)):
        some(.4, 'encoding', lambda: rng.choice(ENCODINGS[:4]))
    return a


def plain(x):
    """Whether the texts of a plan are all in ASCII."""
    if isinstance(x, dict):
        if x.get('ascii') is False:
            return False
        return all(plain(k) and plain(v) for k, v in x.items())
    if isinstance(x, list):
        return all(plain(v) for v in x)
    return not isinstance(x, str) or x.isascii()


def get():
    """The surroundings as they are: name -> value that can be compared."""
    umask = os.umask(0)
    os.umask(umask)
    root = logging.getLogger()
    s = {
        'error handling of numpy': np.geterr(),
        'error call of numpy': np.geterrcall(),
        'print options of numpy': np.get_printoptions(),
        'warning filters': list(warnings.filters),
        'display of warnings': warnings.showwarning,
        'level of the root logger': root.level,
        'handlers of the root logger': list(root.handlers),
        'disabled logging': root.manager.disable,
        'limits of the process': [resource.getrlimit(n) for n in _LIMITS],
        'global generator of numpy': id(np.random.mtrand._rand),
        'loggers of others': {
            k: (v.level, list(v.handlers), v.propagate, v.disabled)
            for k, v in root.manager.loggerDict.items()
            if isinstance(v, logging.Logger) and
            not k.startswith('kamrecsys')},
        'factory of log records': logging.getLogRecordFactory(),
        'class of loggers': logging.getLoggerClass(),
        'environment variables': dict(os.environ),
        'working directory': simio._real_os['getcwd'](),
        'umask': umask,
        'command line': list(sys.argv),
        'search path of modules': list(sys.path),
        'importers': list(sys.meta_path),
        'standard streams': (sys.stdin, sys.stdout, sys.stderr),
        'hooks': (sys.excepthook, sys.displayhook, threading.excepthook,
                  sys.unraisablehook),
        'recursion limit': sys.getrecursionlimit(),
        'digits of integers': sys.get_int_max_str_digits(),
        'switch interval': sys.getswitchinterval(),
        'locale': locale.setlocale(locale.LC_ALL),
        'garbage collection': (gc.isenabled(), gc.get_threshold(),
                               gc.get_debug()),
        'signal handlers': {n: signal.getsignal(n)
                            for n in signal.valid_signals()},
        'decimal context': repr(decimal.getcontext()),
        'temporary directory': tempfile.tempdir,
        'settings of sklearn': sklearn.get_config(),
        'threads': sorted(t.name for t in threading.enumerate()),
        'generator of random': random.getstate(),
    }
    for m in MODULES:
        s['functions of ' + m.__name__] = {
            k: id(v) for k, v in vars(m).items() if callable(v)}
    return s


def differences(a, b):
    """Names of what differs (what is new in modules counts for nothing)."""
    out = []
    for k in a:
        x, y = a[k], b[k]
        if k.startswith('functions of '):
            bad = [n for n in x if y.get(n) != x[n]]
            if bad:
                out.append('%s (%s)' % (k, ', '.join(sorted(bad)[:4])))
        elif k == 'loggers of others':
            bad = [n for n in x if y.get(n) != x[n]]
            if bad:
                out.append('%s (%s)' % (k, ', '.join(sorted(bad)[:4])))
        elif k in ('environment variables', 'signal handlers'):
            bad = [str(n) for n in set(x) | set(y) if x.get(n) != y.get(n)]
            if bad:
                out.append('%s (%s)' % (k, ', '.join(sorted(bad)[:4])))
        elif x != y:
            out.append(k)
    return out


class Surroundings(object):
    """Sets surroundings up, and what was before again."""

    def __init__(self, a):
        self.a = a

    def __enter__(self):
        a = self.a
        self.old = get()
        self.oldnp = np.random.get_state()
        self.oldlevel = logging.getLogger('kamrecsys').level
        self.oldrand = np.random.mtrand._rand
        self.olddec = decimal.getcontext().copy()
        self.oldmods = [(m, dict(vars(m))) for m in MODULES]
        if a.get('err'):
            np.seterr(**a['err'])
        if a.get('print'):
            np.set_printoptions(**a['print'])
        for f in a.get('filters') or ():
            warnings.simplefilter(f)
        if a.get('filters'):
            warnings.showwarning = _nothing
        root = logging.getLogger()
        if a.get('root') is not None:
            root.setLevel(a['root'])
            root.addHandler(_Formats())
        if a.get('level') is not None:
            logging.getLogger('kamrecsys').setLevel(a['level'])
        if a.get('disable') is not None:
            logging.disable(a['disable'])
        os.environ.update(a.get('env') or {})
        if a.get('random') is not None:
            random.seed(a['random'])
        if a.get('nprandom') is not None:
            np.random.seed(a['nprandom'])
        if a.get('cwd'):
            simio._real_os['chdir'](a['cwd'])
        if a.get('cpus'):
            os.cpu_count = lambda n=a['cpus']: n
            os.sched_getaffinity = lambda pid, n=a['cpus']: set(range(n))
        self.oldclock = seams.current_clock
        if a.get('clock'):
            seams.current_clock = seams.SimClock(*a['clock'])
        if a.get('prec'):
            decimal.getcontext().prec = a['prec']
        if a.get('gc'):
            gc.enable()
            gc.set_threshold(a['gc'], 20, 20)
        if a.get('recursion'):
            sys.setrecursionlimit(a['recursion'])
        if a.get('umask') is not None:
            os.umask(a['umask'])
        if a.get('encoding'):
            simio.text_encoding = a['encoding']
        return self

    def __exit__(self, *exc):
        o = self.old
        seams.current_clock = self.oldclock
        np.random.mtrand._rand = self.oldrand
        for m, d in self.oldmods:
            v = vars(m)
            for k, x in d.items():
                if v.get(k) is not x:
                    v[k] = x
        np.seterr(**o['error handling of numpy'])
        np.seterrcall(o['error call of numpy'])
        np.set_printoptions(**o['print options of numpy'])
        warnings.filters[:] = o['warning filters']
        warnings._filters_mutated()
        warnings.showwarning = o['display of warnings']
        root = logging.getLogger()
        root.setLevel(o['level of the root logger'])
        root.handlers[:] = o['handlers of the root logger']
        logging.disable(o['disabled logging'])
        logging.getLogger('kamrecsys').setLevel(self.oldlevel)
        for k, x in o['loggers of others'].items():
            lg = logging.getLogger(k)
            lg.setLevel(x[0])
            lg.handlers[:] = x[1]
            lg.propagate, lg.disabled = x[2:]
        logging.setLogRecordFactory(o['factory of log records'])
        logging._loggerClass = o['class of loggers']
        os.environ.clear()
        os.environ.update(o['environment variables'])
        simio._real_os['chdir'](o['working directory'])
        os.umask(o['umask'])
        sys.argv[:] = o['command line']
        sys.path[:] = o['search path of modules']
        sys.meta_path[:] = o['importers']
        sys.stdin, sys.stdout, sys.stderr = o['standard streams']
        (sys.excepthook, sys.displayhook, threading.excepthook,
         sys.unraisablehook) = o['hooks']
        sys.setrecursionlimit(o['recursion limit'])
        sys.set_int_max_str_digits(o['digits of integers'])
        sys.setswitchinterval(o['switch interval'])
        locale.setlocale(locale.LC_ALL, o['locale'])
        (gc.enable if o['garbage collection'][0] else gc.disable)()
        gc.set_threshold(*o['garbage collection'][1])
        gc.set_debug(o['garbage collection'][2])
        for n, h in o['signal handlers'].items():
            if signal.getsignal(n) is not h and h is not None:
                signal.signal(n, h)
        decimal.setcontext(self.olddec)
        tempfile.tempdir = o['temporary directory']
        sklearn.set_config(**o['settings of sklearn'])
        random.setstate(o['generator of random'])
        np.random.set_state(self.oldnp)
        simio.text_encoding = 'utf-8'
        return False


def _nothing(*args, **kw):
    pass


class _Formats(logging.Handler):
    """Does what a handler that writes messages somewhere does."""

    def emit(self, record):
        record.getMessage()
