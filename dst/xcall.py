"""Calls other(argument) of a check in another process."""
import json
import os
import subprocess
import sys

from .core import HarnessError

_here = os.path.dirname(os.path.abspath(__file__))
_servers = {}

#: hash seeds of the other processes
SEEDS = [11, 222, 3333]


class OtherError(Exception):
    """The computation failed in the other process."""


def _server(hashseed):
    key = (os.getpid(), hashseed)
    p = _servers.get(key)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        p = _servers[key] = subprocess.Popen(
            [sys.executable, '-B', os.path.join(_here, 'xproc.py')], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, cwd='/')
    return key, p


def call(check, seed, arg):
    key, p = _server(SEEDS[seed % len(SEEDS)])
    try:
        p.stdin.write(json.dumps([check, seed, arg]) + '\n')
        p.stdin.flush()
        line = p.stdout.readline()
    except BaseException:
        p.kill()
        _servers.pop(key, None)
        raise
    if not line:
        _servers.pop(key, None)
        raise HarnessError('other process ended with %r' % p.wait())
    st, v = json.loads(line)
    if st != 'ok':
        raise OtherError(v)
    return v
