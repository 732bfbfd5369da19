"""Seams through which the simulator controls the code under test.

* the numerical optimizer (``scipy.optimize.minimize``), wrapped before the
  code under test imports it;
* wall clock and CPU clock (``datetime``, ``time``, ``os.times``).

With no handler / clock active in the calling thread, everything is real."""
import datetime as _dt
import os
import resource
import sys
import threading
import time as _time

import numpy as np

from .core import EXC, Injected

_tls = threading.local()

# --- optimizer ---------------------------------------------------------------
real_minimize = None


class Optimizer(object):
    """Decides what the optimizer does and records what it was given.

    plan: {'mode': 'real'|'early'|'point'|'raise'|'raise_eval', ...}"""

    def __init__(self, run, plan=None, inspect=None):
        self.run = run
        self.plan = plan or {'mode': 'real'}
        self.calls = []
        #: called with the record just before a result is handed back, when
        #: the objective can still be evaluated
        self.inspect = inspect

    def __enter__(self):
        self.prev = getattr(_tls, 'opt', None)
        _tls.opt = self
        return self

    def __exit__(self, *a):
        _tls.opt = self.prev

    def minimize(self, fun, x0, args, method, jac, rest):
        mode = self.plan['mode']
        if not isinstance(args, tuple):
            args = (args,)
        rec = {'fun': fun, 'x0': np.array(x0, dtype=float), 'args': args,
               'method': method, 'jac': jac, 'rest': dict(rest),
               'options': dict(rest.get('options') or {})}
        self.calls.append(rec)
        if mode == 'raise':
            self.run.fault('optimizer:raise:' + self.plan['exc'])
            raise EXC[self.plan['exc']]('optimizer failed')
        if mode == 'raise_eval':
            n = [0]
            plan, run = self.plan, self.run

            def fun2(*a):
                n[0] += 1
                if n[0] == plan['n']:
                    run.fault('optimizer:raise-in-evaluation:' + plan['exc'])
                    raise EXC[plan['exc']]('optimizer failed')
                return fun(*a)
            return real_minimize(fun2, x0, args=args, method=method, jac=jac,
                                 **rest)
        if mode == 'point':
            from scipy.optimize import OptimizeResult
            x = np.array(x0, dtype=float)
            d = np.random.RandomState(self.plan['seed']).normal(
                0.0, self.plan.get('scale', 0.3), x.shape)
            x = x + d
            f = fun(x, *args)
            if jac is True:
                f = f[0]
            self.run.fault('optimizer:odd-result')
            res = OptimizeResult(
                x=x, fun=float(f), success=bool(self.plan['success']),
                status=int(self.plan['status']), message=self.plan['message'],
                nfev=int(self.plan['nfev']), jac=np.zeros_like(x))
            # some optimizers do not report these
            for k in ('nit', 'njev'):
                if self.plan.get(k) is not None:
                    res[k] = int(self.plan[k])
            rec['res'] = res
            rec['x'] = x.copy()
            rec['fun_at_x'] = float(f)
            if self.inspect is not None:
                self.inspect(rec)
            return res
        if mode == 'early':
            rest = dict(rest)
            rest['options'] = dict(rest.get('options') or {})
            rest['options']['maxiter'] = self.plan['maxiter']
            self.run.fault('optimizer:early-stop')
        res = real_minimize(fun, x0, args=args, method=method, jac=jac, **rest)
        rec['res'] = res
        rec['x'] = np.array(res.x, dtype=float)
        rec['fun_at_x'] = float(res.fun)
        if self.inspect is not None:
            self.inspect(rec)
        return res


def _minimize(fun, x0, args=(), method=None, jac=None, **rest):
    h = getattr(_tls, 'opt', None)
    if h is None:
        return real_minimize(fun, x0, args=args, method=method, jac=jac,
                             **rest)
    return h.minimize(fun, x0, args, method, jac, rest)


def install_optimizer_seam():
    global real_minimize
    import scipy.optimize
    import scipy.optimize._minimize as m
    if real_minimize is None:
        real_minimize = m.minimize
        _minimize.__doc__ = m.minimize.__doc__
        m.minimize = _minimize
        scipy.optimize.minimize = _minimize


# --- clocks ------------------------------------------------------------------
_real_datetime = _dt.datetime
_real = {k: getattr(_time, k) for k in (
    'time', 'perf_counter', 'monotonic', 'process_time', 'sleep', 'time_ns',
    'perf_counter_ns', 'monotonic_ns', 'process_time_ns', 'thread_time',
    'thread_time_ns', 'clock_gettime', 'clock_gettime_ns', 'localtime',
    'gmtime', 'ctime', 'strftime', 'asctime')}
_real_times = os.times
_real_getrusage = resource.getrusage

#: the simulated machine stands five and a half hours east of Greenwich
ZONE = -_time.timezone * 1000000

#: the clock of the simulated process that holds the baton
current_clock = None


class SimClock(object):
    """A virtual clock.  `wall` may jump; `mono` and `cpu` never go back."""

    def __init__(self, start=1.7e9, tick=1000):
        # all in integer microseconds
        self.wall = int(start * 1e6)
        self.mono = 0
        self.cpu = 0
        self.tick = int(tick)
        self.readings = []      # (kind, value) of every reading
        self.n_jumps = 0

    def advance(self, micros, cpu=None):
        self.wall += int(micros)
        self.mono += int(micros)
        self.cpu += int(micros if cpu is None else cpu)

    def jump(self, micros):
        self.wall += int(micros)
        self.n_jumps += 1

    def read(self, kind):
        # every reading is unique
        self.advance(self.tick, max(1, self.tick // 2))
        v = {'wall': self.wall, 'mono': self.mono, 'cpu': self.cpu,
             'user+system': self.cpu + self.cpu // 4,
             'children': self.cpu // 2}[kind]
        self.readings.append((kind, v))
        return v


class SimDateTime(_real_datetime):
    @classmethod
    def now(cls, tz=None):
        if current_clock is None:
            return _real_datetime.now(tz)
        us = current_clock.read('wall')
        if tz is not None:
            return _real_datetime.fromtimestamp(us // 1000000, tz).replace(
                microsecond=us % 1000000)
        return cls(1970, 1, 1) + _dt.timedelta(microseconds=us + ZONE)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        if current_clock is None:
            return _real_datetime.utcnow()
        return cls(1970, 1, 1) + _dt.timedelta(
            microseconds=current_clock.read('wall'))


def _mk(kind, real, scale):
    def f():
        if current_clock is None:
            return real()
        v = current_clock.read(kind)
        return v * 1000 if scale == 'ns' else v / 1e6
    return f


def _sleep(s):
    if current_clock is None:
        return _real['sleep'](s)
    current_clock.advance(int(s * 1e6), 0)


def _times():
    if current_clock is None:
        return _real_times()
    v = current_clock.read('cpu')
    return os.times_result((v / 1e6, v / 4e6, v / 2e6, v / 8e6,
                            current_clock.mono / 1e6))


def _process_ns():
    # user and system time
    return current_clock.read('user+system') * 1000


def _getrusage(who):
    if current_clock is None:
        return _real_getrusage(who)
    v = current_clock.read('cpu' if who == resource.RUSAGE_SELF
                           else 'children')
    r = list(_real_getrusage(who))
    r[0], r[1] = (v / 1e6, v / 4e6)
    return resource.struct_rusage(r)


def _clock_ns(c):
    if c in (_time.CLOCK_REALTIME, getattr(_time, 'CLOCK_TAI', -1)):
        return current_clock.read('wall') * 1000
    if c in (_time.CLOCK_PROCESS_CPUTIME_ID, _time.CLOCK_THREAD_CPUTIME_ID):
        return _process_ns()
    return current_clock.read('mono') * 1000


def _clock_gettime(c):
    if current_clock is None:
        return _real['clock_gettime'](c)
    return _clock_ns(c) / 1e9


def _clock_gettime_ns(c):
    if current_clock is None:
        return _real['clock_gettime_ns'](c)
    return _clock_ns(c)


def _now_default(name):
    real = _real[name]

    def f(secs=None):
        if secs is None and current_clock is not None:
            secs = current_clock.read('wall') / 1e6
        return real(secs)
    return f


def _strftime(fmt, t=None):
    if t is None and current_clock is not None:
        t = _time.localtime()
    return _real['strftime'](fmt, *(() if t is None else (t,)))


def _asctime(t=None):
    if t is None and current_clock is not None:
        t = _time.localtime()
    return _real['asctime'](*(() if t is None else (t,)))


def _log_time():
    """time.time() for logging: does not count as a reading."""
    if current_clock is None:
        return _real['time']()
    return current_clock.wall / 1e6


class _LogTime(object):
    """Stand-in for the module `time` inside `logging`."""

    def __getattr__(self, k):
        if k == 'time':
            return _log_time
        return getattr(_time, k)


def install_clock_seam():
    import logging
    _dt.datetime = SimDateTime
    _time.time = _mk('wall', _real['time'], 's')
    _time.time_ns = _mk('wall', _real['time_ns'], 'ns')
    for k in ('perf_counter', 'monotonic'):
        setattr(_time, k, _mk('mono', _real[k], 's'))
        setattr(_time, k + '_ns', _mk('mono', _real[k + '_ns'], 'ns'))
    for k in ('process_time', 'thread_time'):
        setattr(_time, k, _mk('user+system', _real[k], 's'))
        setattr(_time, k + '_ns', _mk('user+system', _real[k + '_ns'], 'ns'))
    _time.clock_gettime = _clock_gettime
    _time.clock_gettime_ns = _clock_gettime_ns
    for k in ('localtime', 'gmtime', 'ctime'):
        setattr(_time, k, _now_default(k))
    _time.strftime = _strftime
    _time.asctime = _asctime
    resource.getrusage = _getrusage
    import timeit
    timeit.default_timer = _time.perf_counter
    _time.sleep = _sleep
    os.times = _times
    logging.time = _LogTime()


def real_time():
    return _real['perf_counter']()
