"""Deterministic scheduler for caller threads.

Every task is a real thread, but only the one holding the baton runs.  Each
executed line of the code under test (in fine runs, see env.fine_code, each part
of a line) is a point at which the plan may take the baton away (a list of [gap, pick] entries) or raise a fault inside the task
(an armed trip counter).  Nothing else decides who runs."""
import os
import sys
import threading

from . import env
from .core import EXC, HarnessError, Violation
from .simio import Crash

STEP_CAP = 4000000

#: what begins and ends the thread of a task, if anything (C09)
around = None

#: no faults at lines
no_trips = False


def around_state():
    import decimal
    import numpy as np
    return dict(np.geterr(), call=np.geterrcall(),
                decimal=repr(decimal.getcontext()))


class Abort(BaseException):
    """Unwinds the other tasks after one of them has failed."""


class Task(object):
    def __init__(self, tid, fn, proc=None):
        self.tid = tid
        self.fn = fn
        self.proc = proc
        self.n = 0          # points passed
        self.trip = 0       # absolute point at which a fault is raised
        self.trip_exc = None
        self.fired = None   # where the fault was raised
        self.done = False
        self.sem = threading.Semaphore(0)
        self.thread = None
        self.quiet = 0      # > 0 while the harness itself works


_code_cache = {}


def _is_target(code):
    r = _code_cache.get(code)
    if r is None:
        fn = code.co_filename
        r = (fn.startswith(env.REPO + os.sep) and
             (code.co_name != '<module>' or
              fn.startswith(env.RAWDATA + os.sep)))
        _code_cache[code] = r
    return r


class Sched(object):
    def __init__(self, run, switches=(), line_points=True, cap=STEP_CAP):
        self.run_ = run
        # gaps are given in lines
        self.switches = [[s[0] * (env.fine or 1), s[1]] for s in switches]
        self.si = 0
        self.gap = self.switches[0][0] if self.switches else -1
        self.tasks = []
        self.cur = None
        self.steps = 0
        self.cap = cap * (8 if env.fine else 1)
        self.failure = None
        self.aborting = False
        self.main_sem = threading.Semaphore(0)
        self.line_points = line_points
        self.n_switches = 0

    # -- tasks ----------------------------------------------------------------
    def spawn(self, fn, proc=None):
        t = Task(len(self.tasks), fn, proc)
        self.tasks.append(t)
        return t

    def run(self):
        if not self.tasks:
            return
        for t in self.tasks:
            if t.proc is not None:
                t.proc.load()
        for t in self.tasks:
            t.thread = threading.Thread(
                target=self._body, args=(t,), daemon=True)
            t.thread.start()
        first = self.tasks[0]
        self.cur = first
        if first.proc is not None:
            first.proc.enter()
        first.sem.release()
        self.main_sem.acquire()
        for t in self.tasks:
            t.thread.join()
        self.run_.steps += self.steps
        self.run_.switches += self.n_switches
        if self.failure is not None:
            raise self.failure

    def _body(self, t):
        t.sem.acquire()
        try:
            if not self.aborting:
                if around is None or t.proc is not None:
                    self.arm()
                    t.fn(t)
                else:
                    around[0]()
                    old = around_state()
                    self.arm()
                    t.fn(t)
                    around[1](old)
        except Abort:
            pass
        except BaseException as e:
            if self.failure is None:
                self.failure = e
            self.aborting = True
        finally:
            sys.settrace(None)
            t.done = True
            self._finish(t)

    def _finish(self, t):
        alive = [x for x in self.tasks if not x.done]
        if t.proc is not None:
            t.proc.leave()
        if not alive:
            self.main_sem.release()
            return
        nxt = alive[0]
        self.cur = nxt
        if nxt.proc is not None:
            nxt.proc.enter()
        nxt.sem.release()

    # -- points ---------------------------------------------------------------
    def arm(self):
        """(Re-)install the trace function in the calling thread."""
        if self.line_points:
            sys.settrace(self._global_trace)

    def _global_trace(self, frame, event, arg):
        if _is_target(frame.f_code):
            return self._local_trace
        return None

    def _local_trace(self, frame, event, arg):
        if event == 'line':
            self.point(frame)
        return self._local_trace

    def point(self, where):
        t = self.cur
        if t is None or t.quiet or self.aborting:
            if self.aborting and t is not None and not t.quiet:
                raise Abort()
            return
        self.steps += 1
        if self.steps > self.cap:
            raise Violation(
                'no-progress', 'an operation did not finish within %d steps'
                % self.cap)
        t.n += 1
        if t.trip and t.n >= t.trip and not no_trips:
            t.trip = 0
            t.fired = self._where(where)
            self.run_.mark('trip', t.tid, t.fired)
            if t.trip_exc == 'crash':
                self.run_.fault('crash:at-line')
                t.proc.die()
                raise Crash()
            if t.proc is not None:
                self.run_.fault('inject:' + t.trip_exc)
                t.proc.faults_hit += 1
            raise EXC[t.trip_exc]('injected at %s' % (t.fired,))
        self.gap -= 1
        if self.gap == 0:
            self.si += 1
            pick = self.switches[self.si - 1][1]
            self.gap = (self.switches[self.si][0]
                        if self.si < len(self.switches) else -1)
            others = [x for x in self.tasks if not x.done and x is not t]
            if others:
                nxt = others[pick % len(others)]
                self.n_switches += 1
                self.run_.mark('sw', t.tid, nxt.tid, self._where(where))
                self._handoff(t, nxt)

    def _handoff(self, t, nxt):
        if t.proc is not None:
            t.proc.leave()
        self.cur = nxt
        if nxt.proc is not None:
            nxt.proc.enter()
        nxt.sem.release()
        t.sem.acquire()
        # whoever released us has made us current
        if self.aborting:
            raise Abort()

    @staticmethod
    def _where(where):
        if isinstance(where, str):
            return where
        line = where.f_lineno
        if line > env.WIDTH * 2:
            line = '%d.%d' % divmod(line, env.WIDTH)
        return '%s:%s' % (
            os.path.basename(where.f_code.co_filename), line)

    # -- helpers for tasks ----------------------------------------------------
    class _Quiet(object):
        def __init__(self, t):
            self.t = t

        def __enter__(self):
            self.t.quiet += 1

        def __exit__(self, *a):
            self.t.quiet -= 1

    def quiet(self, t):
        """Context in which the harness may call the code under test without
        giving away the baton or being hit by faults."""
        return Sched._Quiet(t)

    def call(self, t, fn, fault=None):
        """Run `fn` as one operation of task `t`; `fault` = (points, kind)
        raises a fault after that many points.  Returns (status, value)."""
        if fault is not None:
            t.fired = None
            t.trip_exc = fault[1]
            t.trip = t.n + max(1, int(fault[0]))
        self.arm()
        try:
            v = fn()
            return 'ok', v
        except (Violation, HarnessError, Abort):
            raise
        except BaseException as e:
            return 'exc', e
        finally:
            t.trip = 0
            if fault is not None and t.fired is not None:
                self.run_.fault('inject:' + fault[1])


def count_points(fn):
    """Number of points `fn` passes when it runs undisturbed (used to place a
    fault at a fraction of an operation)."""
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
        return local

    def glob(frame, event, arg):
        return local if _is_target(frame.f_code) else None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        fn()
    finally:
        sys.settrace(old)
    return n[0]
