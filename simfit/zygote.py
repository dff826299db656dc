"""Other interpreters: processes with other hash seeds (and start conditions)
that fork a fresh worker for every request.

The parent of all runs starts them; runs connect to them. A request is a
module level function of a simfit module with its arguments; the reply is
('ok', value) or ('exc', type name, message)."""
import atexit
import ctypes
import importlib
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys

from . import env

_LIVE = {}


def _name(pid, seed):
    return '\0simfit-%d-%d' % (pid, seed)


def start(seeds):
    """Start one interpreter per hash seed (in the parent of all runs)."""
    for s in seeds:
        if s in _LIVE:
            continue
        sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        sock.bind(_name(os.getpid(), s))
        sock.listen(64)
        e = dict(os.environ, PYTHONHASHSEED=str(s), SIMFIT_CHILD='1',
                 SIMFIT_REPO=env.REPO, PYTHONPATH=env.VERIF)
        p = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-m', 'simfit.zygote',
             str(sock.fileno())], env=e, pass_fds=[sock.fileno()],
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, preexec_fn=_die_with_parent)
        sock.close()
        _LIVE[s] = (p, _name(os.getpid(), s))
    atexit.register(stop)


def stop():
    for s, (p, _) in list(_LIVE.items()):
        try:
            p.kill()
            p.wait()
        except Exception:
            pass
        _LIVE.pop(s)


def _die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def _recv(c, n):
    out = b''
    while len(out) < n:
        b = c.recv(min(1 << 20, n - len(out)))
        if not b:
            raise EOFError('connection closed')
        out += b
    return out


def _put(c, b):
    c.sendall(struct.pack('>Q', len(b)) + b)


def _get(c):
    return _recv(c, struct.unpack('>Q', _recv(c, 8))[0])


def call(seed, module, func, *args, **kw):
    """Call simfit.<module>.<func>(*args) in a fresh fork of interpreter
    ``seed``."""
    limit = kw.get('limit', 80.)
    c = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    c.settimeout(limit)
    try:
        c.connect(_LIVE[seed][1])
        _put(c, pickle.dumps((module, func, args), protocol=4))
        return pickle.loads(_get(c))
    except (socket.timeout, EOFError, ConnectionError) as e:
        return ('died', str(e) or type(e).__name__)
    finally:
        c.close()


def serve(fd):
    env.load()
    sock = socket.socket(fileno=fd)
    while True:
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        c, _ = sock.accept()
        if os.fork() == 0:
            code = 0
            try:
                _die_with_parent()
                sock.close()
                c.settimeout(120.)
                module, func, args = pickle.loads(_get(c))
                try:
                    m = importlib.import_module('simfit.' + module)
                    out = ('ok', getattr(m, func)(*args))
                except BaseException as e:
                    out = ('exc', type(e).__name__, str(e)[:300])
                _put(c, pickle.dumps(out, protocol=4))
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        c.close()


if __name__ == '__main__':
    serve(int(sys.argv[1]))
