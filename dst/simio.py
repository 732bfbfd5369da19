"""In-memory disk and file objects with fault injection.

Files are real ``io.TextIOWrapper`` / ``io.Buffered*`` stacks over a raw device
of the simulator, so buffering, decoding and line handling are those of the
real interpreter.  Every raw operation is a numbered point at which the plan may
deliver less than asked, fail, run out of space, crash the process or hand the
baton to another process."""
import builtins
import errno
import io
import os
import posixpath

from . import env
from .core import HarnessError

_real_open = io.open
_real_os = {k: getattr(os, k) for k in (
    'replace', 'rename', 'remove', 'unlink', 'makedirs', 'mkdir', 'listdir',
    'fsync', 'stat', 'access', 'truncate', 'link', 'symlink', 'rmdir',
    'open', 'scandir', 'lstat', 'chmod', 'utime', 'read', 'write', 'close',
    'lseek', 'ftruncate', 'fstat', 'fdatasync', 'dup', 'dup2', 'isatty',
    'getcwd', 'chdir', 'sendfile', 'writev', 'pread', 'pwrite')}
_real_path = {k: getattr(os.path, k) for k in (
    'exists', 'isfile', 'isdir', 'getsize', 'lexists', 'abspath', 'realpath')}

#: the simulated process that runs now (None: the harness)
current = None
#: the disk in use
disk = None


class Crash(BaseException):
    """The simulated process is killed."""


class Disk(object):
    def __init__(self):
        self.files = {}         # absolute path -> bytearray
        self.dirs = set(['/sim', '/tmp'])
        self.overlay = []       # real directories that live on this disk
        self.writes = 0
        self.first_write = {}   # path -> who opened it for writing

    def covers(self, path):
        if path == '/sim' or path.startswith('/sim/'):
            return True
        if path == '/tmp' or path.startswith('/tmp/') and not any(
                path == d or path.startswith(d + '/')
                for d in (env.REPO, env.VERIF)):
            return True
        for d in self.overlay:
            if path == d or path.startswith(d + '/'):
                rest = path[len(d):]
                if not rest.endswith(('.py', '.pyc', '.md')):
                    return True
        return False

    def put(self, path, content):
        self.files[path] = bytearray(content)

    def get(self, path):
        f = self.files.get(path)
        return None if f is None else bytes(f)

    def snapshot(self):
        return {k: bytes(v) for k, v in self.files.items()}


class IOPlan(object):
    """Faults of one process, by number of its I/O operation.

    faults: list of dicts {'op': n, 'kind': k, ...}; kinds
      eio        the operation fails
      enospc     this and all later writes fail: the disk is full
      emfile     opening fails
      close      closing fails (data may be lost: 'lost' bytes of the last write)
      crash      the process dies before the operation, 'torn' bytes of a write
                 having reached the disk
    chunk: list of sizes for short reads / writes (cycled), [] for none
    """

    def __init__(self, faults=(), rchunk=(), wchunk=(), bufsize=None,
                 delay=()):
        self.faults = {int(f['op']): f for f in faults}
        self.rchunk = [max(1, int(c)) for c in rchunk]
        self.wchunk = [max(1, int(c)) for c in wchunk]
        self.bufsize = bufsize
        self.delay = [int(d) for d in delay]


class SimRaw(io.RawIOBase):
    """One open file of a simulated process."""

    def __init__(self, proc, path, mode, name, reading, writing, append,
                 inode):
        io.RawIOBase.__init__(self)
        self.proc = proc
        self.path = path
        self.mode = mode
        self.name = name
        self._r = reading
        self._w = writing
        self._a = append
        self._node = inode
        self._pos = 0
        self._closing = False
        #: not a file of the disk: no points, no faults
        self._free = False
        self._fd = 1000 + proc.next_fd()
        proc.fds[self._fd] = self

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return self.path is not None and not self.path.startswith('<')

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def seek(self, off, whence=0):
        if not self.seekable():
            raise io.UnsupportedOperation('seek')
        self._pos = {0: 0, 1: self._pos, 2: len(self._node)}[whence] + off
        return self._pos

    def tell(self):
        if not self.seekable():
            raise io.UnsupportedOperation('tell')
        return self._pos

    def truncate(self, size=None):
        size = self._pos if size is None else size
        if self.proc.dead:
            return size
        del self._node[size:]
        return size

    def readinto(self, b):
        if self.proc.dead:
            return 0
        f = None if self._free else self.proc.io('read', self.path)
        n = len(b)
        rc = [] if self._free else self.proc.ioplan.rchunk
        avail = len(self._node) - self._pos
        if rc:
            # a large file does not come in millions of pieces
            c = max(rc[self.proc.n_read % len(rc)],
                    len(self._node) // 20000)
            self.proc.n_read += 1
            if c < n and c < avail:
                n = c
                self.proc.run.fault('io:short-read')
        n = max(0, min(n, avail))
        b[:n] = self._node[self._pos:self._pos + n]
        self._pos += n
        return n

    def write(self, b):
        b = bytes(b)
        if self.proc.dead or self.path == '<null>':
            return len(b)
        f = None if self._free else self.proc.io('write', self.path, b, self)
        n = len(b)
        if f is not None and f['kind'] == 'short':
            n = max(1, n // 2)
        wc = [] if self._free else self.proc.ioplan.wchunk
        if wc:
            c = max(wc[self.proc.n_write % len(wc)], self._pos // 20000,
                    len(b) // 20000)
            self.proc.n_write += 1
            if c < n:
                n = c
                self.proc.run.fault('io:short-write')
        self._put(b[:n])
        return n

    def _put(self, b):
        if self._a:
            self._pos = len(self._node)
        if self._pos > len(self._node):
            self._node.extend(b'\0' * (self._pos - len(self._node)))
        self._node[self._pos:self._pos + len(b)] = b
        self._pos += len(b)

    def close(self):
        if self.closed:
            return
        if self.proc.dead or self._closing:
            io.RawIOBase.close(self)
            return
        self._closing = True
        try:
            if self._w and not self._free:
                self.proc.io('close', self.path, None, self)
        finally:
            self.proc.fds.pop(self._fd, None)
            io.RawIOBase.close(self)

    def __del__(self):
        # never an I/O operation of the plan
        try:
            self._closing = True
            io.RawIOBase.close(self)
        except Exception:
            pass


def _abspath(path):
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith('/'):
        base = current.cwd if current is not None else os.getcwd()
        path = posixpath.join(base, path)
    return posixpath.normpath(path)


def sim_path(path):
    """Absolute path if `path` lies on the simulated disk, else None."""
    if disk is None:
        return None
    if not isinstance(path, (str, bytes, os.PathLike)):
        return None
    p = _abspath(path)
    return p if disk.covers(p) else None


#: what texts are encoded in unless something else is requested
text_encoding = 'utf-8'


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    if disk is None or current is None:
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    proc = current
    m = set(mode)
    if isinstance(file, int) and file not in proc.fds:
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    if len(m & set('rwax')) != 1 or len(m - set('rwaxbt+')):
        raise ValueError('invalid mode: %r' % mode)
    writing = bool(m & set('wax+'))
    reading = 'r' in m or '+' in m
    if not isinstance(file, int) and opener is not None:
        flags = (os.O_RDWR if '+' in m else os.O_WRONLY if writing
                 else os.O_RDONLY) | os.O_CLOEXEC
        flags |= {'r': 0, 'w': os.O_CREAT | os.O_TRUNC,
                  'a': os.O_CREAT | os.O_APPEND,
                  'x': os.O_CREAT | os.O_EXCL}[(m & set('rwax')).pop()]
        fd = opener(file, flags)
        if fd not in proc.fds:
            return _real_open(fd, mode, buffering, encoding, errors, newline,
                              True, None)
        file = fd
        closefd = True
    if isinstance(file, int):
        if proc.dead:
            raise Crash()
        raw = proc.fds[file]
        if not closefd:
            raw = _Borrowed(raw)
        return wrap(proc, raw, mode, buffering, encoding, errors, newline,
                    reading, writing)
    p = _abspath(file)
    if not disk.covers(p):
        if p not in ('/dev/null', '/proc/cpuinfo'):
            if writing:
                raise HarnessError('write to the real disk: %s' % p)
            return _real_open(file, mode, buffering, encoding, errors,
                              newline, closefd, opener)
    raw = _raw(proc, p, file, reading, writing, 'a' in m, 'w' in m,
               'r' not in m, 'x' in m, mode.replace('t', ''))
    return wrap(proc, raw, mode, buffering, encoding, errors, newline)


def _raw(proc, p, file, reading, writing, append, trunc, create, excl, mode):
    """Open a file of a simulated process."""
    if proc.dead:
        raise Crash()
    if p in ('/dev/null', '/proc/cpuinfo'):
        raw = SimRaw(proc, '<null>' if p == '/dev/null' else p, mode, file,
                     reading, writing, append, bytearray(
                         b'' if p == '/dev/null' else proc.cpu_text()))
        raw._free = True
        return raw
    if p.endswith('/') or p in disk.dirs:
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    proc.io('open-w' if writing else 'open-r', p)
    exists = p in disk.files
    if not create and not exists:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), file)
    if excl and exists:
        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), file)
    if not exists and posixpath.dirname(p) not in disk.dirs:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), file)
    if not exists:
        disk.files[p] = bytearray()
    if writing:
        disk.writes += 1
        proc.opened_w.append(p)
        if trunc:
            del disk.files[p][:]
    else:
        proc.opened_r.append(p)
    return SimRaw(proc, p, mode, file, reading, writing, append,
                  disk.files[p])


class _Borrowed(io.RawIOBase):
    """A descriptor that is not closed with the file object (closefd=False)."""

    def __init__(self, raw):
        io.RawIOBase.__init__(self)
        self._raw = raw
        self.name = raw._fd
        self.mode = raw.mode
        self._r, self._w = raw._r, raw._w
        for k in ('readable', 'writable', 'seekable', 'fileno', 'isatty',
                  'seek', 'tell', 'truncate', 'readinto', 'write'):
            setattr(self, k, getattr(raw, k))


def wrap(proc, raw, mode, buffering=-1, encoding=None, errors=None,
         newline=None, reading=None, writing=None):
    r = raw._r if reading is None else reading
    w = raw._w if writing is None else writing
    size = proc.ioplan.bufsize or io.DEFAULT_BUFFER_SIZE
    if buffering == 0:
        if 'b' not in mode:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    if buffering > 1:
        size = buffering
    if r and w:
        buf = io.BufferedRandom(raw, size)
    elif w:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if 'b' in mode:
        proc.track(buf)
        return buf
    if encoding is None or encoding == 'locale':
        encoding = text_encoding
    txt = io.TextIOWrapper(buf, encoding, errors, newline,
                           line_buffering=(buffering == 1))
    txt.mode = mode
    proc.track(txt)
    return txt


# --- os functions ------------------------------------------------------------
def _sim(path):
    return sim_path(path) if current is not None else None


def _exists(path):
    p = _sim(path)
    if p is None:
        return _real_path['exists'](path)
    return p in disk.files or p in disk.dirs


def _isfile(path):
    p = _sim(path)
    return _real_path['isfile'](path) if p is None else p in disk.files


def _isdir(path):
    p = _sim(path)
    return _real_path['isdir'](path) if p is None else p in disk.dirs


def _getsize(path):
    p = _sim(path)
    if p is None:
        return _real_path['getsize'](path)
    if p not in disk.files:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    return len(disk.files[p])


def _replace(src, dst, **kw):
    a, b = _sim(src), _sim(dst)
    if a is None and b is None:
        _guard(src)
        return _real_os['replace'](src, dst, **kw)
    current.io('rename', b)
    if a not in disk.files:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), src)
    disk.files[b] = disk.files.pop(a)
    current.opened_w.append(b)


def _remove(path, **kw):
    p = _sim(path)
    if p is None:
        _guard(path)
        return _real_os['remove'](path, **kw)
    current.io('remove', p)
    if p not in disk.files:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    del disk.files[p]


def _guard(path):
    if current is not None:
        raise HarnessError('change to the real disk: %s' % (path,))


def _makedirs(path, mode=0o777, exist_ok=False):
    p = _sim(path)
    if p is None:
        _guard(path)
        return _real_os['makedirs'](path, mode, exist_ok)
    if p in disk.dirs and not exist_ok:
        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
    while p not in disk.dirs and p != '/':
        disk.dirs.add(p)
        p = posixpath.dirname(p)


def _mkdir(path, mode=0o777, **kw):
    p = _sim(path)
    if p is None:
        _guard(path)
        return _real_os['mkdir'](path, mode, **kw)
    if p in disk.dirs:
        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
    disk.dirs.add(p)


def _listdir(path='.'):
    p = _sim(path)
    if p is None:
        return _real_os['listdir'](path)
    return sorted(posixpath.basename(f) for f in
                  list(disk.files) + list(disk.dirs)
                  if posixpath.dirname(f) == p and f != p)


def _need(p, path):
    if p not in disk.files:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)


def _fd(fd):
    """The open file of a descriptor of the simulated process, else None."""
    if current is None:
        return None
    if not isinstance(fd, int):
        fd = fd.fileno()
    return current.fds.get(fd)


def _fsync(fd):
    f = _fd(fd)
    if current is not None:
        if f is None or not f._free:
            current.io('fsync', None)
        return None
    return _real_os['fsync'](fd)


def _access(path, mode, **kw):
    p = _sim(path)
    if p is None:
        return _real_os['access'](path, mode, **kw)
    return p in disk.files or p in disk.dirs


def _stat_of(p, size, directory=False):
    import zlib
    ino = zlib.crc32(p.encode('utf-8', 'surrogateescape')) + 1
    return os.stat_result((0o040755 if directory else 0o100644, ino, 1, 1, 0,
                           0, size, 0, 0, 0))


def _stat(path, **kw):
    if isinstance(path, int):
        return _fstat(path)
    p = _sim(path)
    if p is None:
        return _real_os['stat'](path, **kw)
    if p in disk.dirs:
        return _stat_of(p, 0, True)
    _need(p, path)
    return _stat_of(p, len(disk.files[p]))


def _lstat(path, **kw):
    return _stat(path) if _sim(path) is not None else \
        _real_os['lstat'](path, **kw)


def _fstat(fd):
    f = _fd(fd)
    if f is None:
        return _real_os['fstat'](fd)
    return _stat_of(f.path or '', len(f._node))


def _no_change(name):
    def f(path, *a, **kw):
        p = _sim(path) if not isinstance(path, int) else _fd(path)
        if p is None:
            _guard(path)
            return _real_os[name](path, *a, **kw)
        if isinstance(p, str) and p not in disk.dirs:
            _need(p, path)
    return f


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = _sim(path)
    if p is None and current is not None and _abspath(path) in (
            '/dev/null', '/proc/cpuinfo'):
        p = _abspath(path)
    if p is None:
        if flags & (os.O_WRONLY | os.O_RDWR):
            _guard(path)
        return _real_os['open'](path, flags, mode, dir_fd=dir_fd)
    acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
    raw = _raw(current, p, path, acc != os.O_WRONLY, acc != os.O_RDONLY,
               bool(flags & os.O_APPEND), bool(flags & os.O_TRUNC),
               bool(flags & os.O_CREAT), bool(flags & os.O_EXCL),
               {os.O_RDONLY: 'rb', os.O_WRONLY: 'wb', os.O_RDWR: 'rb+'}[acc])
    current.track(raw)
    return raw._fd


def _os_read(fd, n):
    f = _fd(fd)
    if f is None:
        return _real_os['read'](fd, n)
    b = bytearray(n)
    return bytes(b[:f.readinto(b)])


def _os_write(fd, data):
    f = _fd(fd)
    if f is None:
        if current is not None:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return _real_os['write'](fd, data)
    return f.write(data)


def _os_close(fd):
    f = _fd(fd)
    if f is None:
        return _real_os['close'](fd)
    f.close()


def _os_lseek(fd, pos, how):
    f = _fd(fd)
    return _real_os['lseek'](fd, pos, how) if f is None else f.seek(pos, how)


def _os_ftruncate(fd, n):
    f = _fd(fd)
    if f is None:
        return _real_os['ftruncate'](fd, n)
    f.truncate(n)


def _os_truncate(path, n):
    if isinstance(path, int):
        return _os_ftruncate(path, n)
    p = _sim(path)
    if p is None:
        _guard(path)
        return _real_os['truncate'](path, n)
    current.io('write', p, b'', None)
    _need(p, path)
    b = disk.files[p]
    b.extend(b'\0' * (n - len(b)))
    del b[n:]


def _os_dup(fd):
    f = _fd(fd)
    if f is None:
        return _real_os['dup'](fd)
    g = SimRaw(current, f.path, f.mode, f.name, f._r, f._w, f._a, f._node)
    g._pos, g._free = f._pos, f._free
    current.track(g)
    return g._fd


def _os_dup2(fd, fd2, inheritable=True):
    f = _fd(fd)
    if f is None:
        return _real_os['dup2'](fd, fd2, inheritable)
    g = current.fds.get(fd2)
    if g is None:
        g = current.fds[fd2] = SimRaw(current, f.path, f.mode, f.name, f._r,
                                      f._w, f._a, f._node)
        del current.fds[g._fd]
        g._fd = fd2
        current.track(g)
    for k in ('path', '_node', '_pos', '_free', '_a', '_r', '_w'):
        setattr(g, k, getattr(f, k))
    return fd2


def _os_isatty(fd):
    return False if _fd(fd) is not None else _real_os['isatty'](fd)


def _os_link(src, dst, **kw):
    a, b = _sim(src), _sim(dst)
    if a is None and b is None:
        _guard(src)
        return _real_os['link'](src, dst, **kw)
    current.io('rename', b)
    _need(a, src)
    if b in disk.files:
        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), dst)
    disk.files[b] = disk.files[a]


def _os_symlink(src, dst, *a, **kw):
    if _sim(dst) is not None:
        raise OSError(errno.EPERM, os.strerror(errno.EPERM), dst)
    _guard(dst)
    return _real_os['symlink'](src, dst, *a, **kw)


def _os_rmdir(path, **kw):
    p = _sim(path)
    if p is None:
        _guard(path)
        return _real_os['rmdir'](path, **kw)
    if p not in disk.dirs:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    if _listdir(p):
        raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), path)
    disk.dirs.discard(p)


class _Entry(object):
    def __init__(self, base, name):
        self.name = name
        self.path = posixpath.join(os.fspath(base), name)

    def is_dir(self, **kw):
        return _isdir(self.path)

    def is_file(self, **kw):
        return _isfile(self.path)

    def is_symlink(self):
        return False

    def stat(self, **kw):
        return _stat(self.path)

    def __fspath__(self):
        return self.path


class _Entries(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __next__(self):
        if not self:
            raise StopIteration
        return self.pop(0)

    def close(self):
        pass


def _scandir(path='.'):
    if isinstance(path, int) or _sim(path) is None:
        return _real_os['scandir'](path)
    return _Entries(_Entry(path, n) for n in _listdir(path))


def _getcwd():
    return _real_os['getcwd']() if current is None else current.cwd


def _chdir(path):
    if current is None:
        return _real_os['chdir'](path)
    p = _abspath(path)
    if p not in disk.dirs and not _real_path['isdir'](p):
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    current.cwd = p


def _lock(real):
    def f(fd, *a, **kw):
        return None if _fd(fd) is not None else real(fd, *a, **kw)
    return f


class _FakePopen(object):
    """Stand-in for /bin/cat /proc/cpuinfo."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                 stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None,
                 startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, text=None,
                 encoding=None, errors=None, **kw):
        import shlex
        import subprocess
        if current is None:
            raise HarnessError('subprocess outside of the simulation')
        current.run.probe('stub:subprocess')
        words = args
        if isinstance(args, (str, bytes)):
            words = shlex.split(os.fsdecode(args))
        words = [os.fsdecode(w) for w in words]
        out = b''
        self.returncode = 0
        if words[:1] in (['/bin/cat'], ['/usr/bin/cat'], ['cat']) and \
                words[1:] == ['/proc/cpuinfo']:
            out = current.cpu_text()
        elif stdin is not None and words[:1] == ['/bin/cat']:
            raise HarnessError('unexpected subprocess: %r' % (args,))
        else:
            # as a machine without that program
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT),
                                    words[0] if words else '')
        self.args = args
        self.pid = 4711
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None
        self._text = bool(text or universal_newlines or encoding or errors)
        enc = encoding or 'utf-8'

        def end(b):
            f = io.BytesIO(b)
            return io.TextIOWrapper(f, enc, errors) if self._text else f
        self.stdout = end(out) if stdout == subprocess.PIPE else None
        self.stderr = end(b'') if stderr == subprocess.PIPE else None
        if stdout is not None and stdout != subprocess.PIPE and \
                stdout != subprocess.DEVNULL:
            f = _fd(stdout)
            if f is None:
                raise HarnessError('output of a subprocess')
            f.write(out)

    def communicate(self, input=None, timeout=None):
        return (None if self.stdout is None else self.stdout.read(),
                None if self.stderr is None else self.stderr.read())

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, sig):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in (self.stdout, self.stderr, self.stdin):
            if f is not None:
                f.close()


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import subprocess
    import numpy.lib._datasource as ds
    builtins.open = sim_open
    io.open = sim_open
    ds._file_openers._load()
    ds._file_openers._file_openers[None] = sim_open
    os.path.exists = _exists
    os.path.lexists = _exists
    os.path.isfile = _isfile
    os.path.isdir = _isdir
    os.path.getsize = _getsize
    os.replace = _replace
    os.rename = _replace
    os.remove = _remove
    os.unlink = _remove
    os.makedirs = _makedirs
    os.mkdir = _mkdir
    os.listdir = _listdir
    os.fsync = _fsync
    os.access = _access
    os.stat = _stat
    os.lstat = _lstat
    os.fstat = _fstat
    os.open = _os_open
    os.read = _os_read
    os.write = _os_write
    os.close = _os_close
    os.lseek = _os_lseek
    os.ftruncate = _os_ftruncate
    os.truncate = _os_truncate
    os.fdatasync = _fsync
    os.dup = _os_dup
    os.dup2 = _os_dup2
    os.isatty = _os_isatty
    os.link = _os_link
    os.symlink = _os_symlink
    os.rmdir = _os_rmdir
    os.scandir = _scandir
    os.getcwd = _getcwd
    os.chdir = _chdir
    os.chmod = _no_change('chmod')
    os.utime = _no_change('utime')
    import fcntl
    import shutil
    import tempfile
    fcntl.flock = _lock(fcntl.flock)
    fcntl.lockf = _lock(fcntl.lockf)
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    tempfile.tempdir = '/tmp'

    real_popen = subprocess.Popen

    class PopenSwitch(real_popen):
        def __new__(cls, *a, **kw):
            if current is not None:
                return _FakePopen(*a, **kw)
            return object.__new__(cls)
    subprocess.Popen = PopenSwitch
