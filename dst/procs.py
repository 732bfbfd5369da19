"""Scripts of the repository run as simulated processes.

A process has its own arguments, standard streams, clock, global random
generator, logging set-up, script modules and open files; only its files on the
simulated disk survive it."""
import errno
import io
import logging
import os
import random
import sys
import traceback

import numpy as np

from . import env, seams, simio
from .core import EXC, HarnessError, Violation
from . import sched
from .sched import Abort, Sched
from .simio import Crash, IOPlan

_codes = {}


def _code(path):
    st = simio._real_os['stat'](path)
    key = (path, st.st_mtime_ns, st.st_size, bool(env.fine))
    if key not in _codes:
        with simio._real_open(path, 'rb') as f:
            make = (env.fine_code if env.fine else
                    lambda src, p: compile(src, p, 'exec'))
            _codes[key] = make(f.read(), path)
    return _codes[key]


_LOGGERS = ('exp_recsys', 'kamrecsys', 'kamiers', 'py.warnings')


class Proc(object):
    def __init__(self, run, name, script, args, stdin=None, ioplan=None,
                 clock=None, cwd='/sim', npseed=None, cpuinfo=b'', quiet=True,
                 argv0=None):
        self.run = run
        self.name = name
        self.script = script
        self.argv0 = argv0 or script
        self.args = list(args)
        self.ioplan = ioplan or IOPlan()
        self.clock = clock or seams.SimClock()
        self.cwd = self.first_cwd = cwd
        self.cpuinfo = cpuinfo
        self.dead = False
        self.full = False
        self.n_io = 0
        self.n_read = 0
        self.n_write = 0
        self._fd = 0
        self.fds = {}           # descriptor -> open file
        self.io_log = []
        self.opened_w = []
        self.opened_r = []
        self.files = []
        self.sched = None
        self.status = None
        self.crashed = False
        self.error = None
        self.traceback = ''
        self.inside = False
        self.faults_hit = 0
        # process state
        node = bytearray(stdin or b'')
        self.stdin_raw = simio.SimRaw(self, '<stdin>', 'r', '<stdin>', True,
                                      False, False, node)
        self.stdin = simio.wrap(self, self.stdin_raw, 'r')
        self.out_node = bytearray()
        self.stdout_raw = simio.SimRaw(self, '<stdout>', 'w', '<stdout>',
                                       False, True, False, self.out_node)
        self.stdout = simio.wrap(self, self.stdout_raw, 'w')
        self.stderr = io.StringIO()
        err = simio.SimRaw(self, '<stderr>', 'w', '<stderr>', False, True,
                           False, bytearray())
        err._free = True
        self.fds.clear()
        for i, f in enumerate((self.stdin_raw, self.stdout_raw, err)):
            f._fd = i
            self.fds[i] = f
        # a new process has an arbitrary state of the global generator, and
        # the system gives it its own entropy
        run.n_procs = run.n_procs + 1
        if npseed is None:
            npseed = run.n_procs * 7919
        self.np_state = np.random.RandomState(npseed).get_state()
        self.entropy = random.Random(npseed)
        self.np_err = dict(divide='warn', over='warn', under='ignore',
                           invalid='warn')
        self.modules = None
        #: called when the process has just loaded the library
        self.prepare = None
        self.log_state = None
        self.saved = None

    # -- devices ----------------------------------------------------------
    def cpu_text(self):
        return (b'processor\t: 0\nmodel name\t: simulated\n' +
                self.cpuinfo)

    def next_fd(self):
        self._fd += 1
        return self._fd

    def track(self, f):
        self.files.append(f)

    def io(self, op, path, data=None, raw=None):
        if self.dead:
            raise Crash()
        self.n_io += 1
        n = self.n_io
        self.io_log.append((op, path))
        d = self.ioplan.delay
        if d:
            self.clock.advance(d[n % len(d)], 0)
        self.run.mark('io', self.name, op)
        if self.sched is not None:
            self.sched.point('io:' + op)
            if self.dead:
                raise Crash()
        f = self.ioplan.faults.get(n)
        kind = f['kind'] if f else None
        if kind == 'crash':
            if op == 'write' and data is not None and f.get('torn'):
                k = int(len(data) * min(1.0, float(f['torn'])))
                raw._put(data[:k])
                self.run.fault('io:torn-write-then-crash')
            else:
                self.run.fault('io:crash')
            self.faults_hit += 1
            self.die()
            raise Crash()
        if kind == 'enospc':
            self.full = True
        if self.full and op in ('write', 'open-w'):
            self.faults_hit += 1
            self.run.fault('io:disk-full:' + op)
            if op == 'write' and kind == 'enospc' and f.get('torn'):
                # the last blocks that still fit
                raw._put(data[:int(len(data) * min(1.0, float(f['torn'])))])
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
        if kind == 'eio':
            self.faults_hit += 1
            code = f.get('errno', 'EIO')
            self.run.fault('io:error:' + op +
                           ('' if code == 'EIO' else ':' + code))
            code = getattr(errno, code)
            if op == 'close' and f.get('lost'):
                lost = int(f['lost'])
                if lost and raw is not None and raw._node:
                    del raw._node[-lost:]
            raise OSError(code, os.strerror(code), path)
        if kind in EXC and kind != 'error':
            self.faults_hit += 1
            self.run.fault('inject:' + kind + ':at-io')
            raise EXC[kind]('injected at %s' % op)
        if kind == 'short':
            self.run.fault('io:short-write')
        return f

    def die(self):
        self.dead = True
        self.crashed = True
        self.run.mark('crash', self.name)

    # -- context ----------------------------------------------------------
    def load(self):
        """Give the process its own, newly initialised library."""
        if self.modules is None:
            with env.world():
                if self.prepare is not None:
                    self.prepare()
                self.modules = env.take_library()

    def enter(self):
        if self.inside:
            raise HarnessError('process entered twice')
        self.inside = True
        s = {}
        s['argv'] = sys.argv
        s['std'] = (sys.stdin, sys.stdout, sys.stderr)
        s['path'] = list(sys.path)
        s['np'] = np.random.get_state()
        s['log'] = _log_save()
        s['clock'] = seams.current_clock
        s['entropy'] = random._urandom
        s['proc'] = simio.current
        s['mods'] = _take_modules()
        self.saved = s
        sys.argv = [self.argv0] + self.args
        sys.stdin, sys.stdout, sys.stderr = (
            self.stdin, self.stdout, self.stderr)
        sys.path.insert(0, os.path.dirname(self.script))
        np.random.set_state(self.np_state)
        if self.log_state is not None:
            _log_restore(self.log_state)
        else:
            _log_reset()
        sys.modules.update(self.modules)
        seams.current_clock = self.clock
        random._urandom = self.entropy.randbytes
        simio.current = self

    def leave(self):
        if not self.inside:
            return
        self.inside = False
        s = self.saved
        self.np_state = np.random.get_state()
        self.log_state = _log_save()
        self.modules = _take_modules()
        sys.argv = s['argv']
        sys.stdin, sys.stdout, sys.stderr = s['std']
        sys.path[:] = s['path']
        np.random.set_state(s['np'])
        _log_restore(s['log'])
        sys.modules.update(s['mods'])
        seams.current_clock = s['clock']
        random._urandom = s['entropy']
        simio.current = s['proc']

    # -- life -------------------------------------------------------------
    def main(self):
        exec(_code(self.script), {
            '__name__': '__main__', '__file__': self.argv0,
            '__builtins__': __builtins__, '__doc__': None,
            '__package__': None})

    def body(self, task):
        """Run the script to its end (as the body of a task)."""
        status = 0
        np.seterr(**self.np_err)        # belongs to the thread
        try:
            try:
                self.main()
            except SystemExit as e:
                if e.code is None:
                    status = 0
                elif isinstance(e.code, int):
                    status = e.code & 0xff
                else:
                    status = 1
                self.error = e if status else None
            except (Violation, HarnessError, Abort):
                raise
            except Crash:
                pass
            except BaseException as e:
                if self.dead:
                    pass
                else:
                    self.error = e
                    self.traceback = ''.join(traceback.format_exception(
                        type(e), e, e.__traceback__))[-3000:]
                    status = 130 if isinstance(e, KeyboardInterrupt) else 1
            if not self.dead:
                sys.settrace(None)
                if task.trip_exc in EXC:
                    task.trip = 0
                status = self._exit(status)
        except Crash:
            pass
        if self.crashed:
            self.dead = True
            self.status = 'crashed'
        else:
            self.status = status
            self.dead = True
        self._drop()
        self.run.ev('exit', self.name, self.status)

    def _exit(self, status):
        # interpreter shutdown: flush the standard streams, then drop the
        # remaining file objects
        self.ioplan.faults = dict(
            (k, v) for k, v in self.ioplan.faults.items()
            if v['kind'] not in EXC)
        try:
            if not self.stdout.closed:
                self.stdout.flush()
        except Crash:
            raise
        except Exception as e:
            self.error = e
            if status == 0:
                status = 120
        for f in self.files:
            if f is self.stdin or f is self.stdout:
                continue
            try:
                if not f.closed:
                    f.close()
            except Crash:
                raise
            except Exception:
                pass
        return status

    def _drop(self):
        for f in self.files:
            try:
                f.close()
            except BaseException:
                pass
        self.files = []


class Func(Proc):
    """A simulated process that runs a function of the harness's caller."""

    def __init__(self, run, name, fn, **kw):
        Proc.__init__(self, run, name, '/sim/client.py', [], **kw)
        self.fn = fn
        self.value = None

    def main(self):
        if sched.around is None:
            self.value = self.fn(self)
            return
        old = sched.around_state()
        try:
            self.value = self.fn(self)
        finally:
            if not self.dead:
                sched.around[1](old)
                sched.around[2](self)


def _take_modules():
    out = {}
    for k, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None)
        if f and (f.startswith(env.SCRIPTS + os.sep) or
                  f.startswith(env.RAWDATA + os.sep)):
            out[k] = m
    for k in out:
        del sys.modules[k]
    out.update(env.take_library())
    return out


def _logger_names():
    return list(_LOGGERS)


def _log_save():
    root = logging.getLogger()
    s = {'': (root.level, list(root.handlers), root.disabled)}
    for n in _logger_names():
        lg = logging.getLogger(n)
        s[n] = (lg.level, list(lg.handlers), lg.disabled)
    return s


def _log_restore(s):
    for n, (level, handlers, disabled) in s.items():
        lg = logging.getLogger(n) if n else logging.getLogger()
        lg.level = level
        lg.handlers[:] = handlers
        lg.disabled = disabled
    logging.root.manager._clear_cache()


def _log_reset():
    root = logging.getLogger()
    root.level = logging.WARNING
    root.handlers[:] = []
    for n in _logger_names():
        lg = logging.getLogger(n)
        lg.level = logging.NOTSET
        lg.handlers[:] = [logging.NullHandler()] if n == 'kamrecsys' else []
    logging.root.manager._clear_cache()


def run_procs(run, procs, switches=(), line_points=False, cap=4000000,
              trips=None):
    """Run processes (all at once, interleaved by `switches`)."""
    sched = Sched(run, switches, line_points=line_points, cap=cap)
    for i, p in enumerate(procs):
        p.sched = sched
        t = sched.spawn(p.body, p)
        if trips and trips.get(i):
            t.trip, t.trip_exc = trips[i]
            t.trip *= env.fine or 1
    sched.run()
    for p in procs:
        run.sim_time += p.clock.mono / 1e6
    return procs
