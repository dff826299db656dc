"""A simulated world for the cache of pretrained fitters.

Loaders are real processes (forked), but never run on their own: at every
seam point - a network call, a file system call below the scratch directory,
or (fine mode) a line of menpofit/io.py - a loader reports to the scheduler
and waits for its orders: go on, fail with an error, get interrupted, or die
on the spot. Exactly one loader runs at a time."""
import email.message
import errno
import hashlib
import os
import pickle
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time

MUTATORS = {'os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.link',
            'os.symlink', 'os.truncate', 'os.utime', 'os.chmod', 'os.chown',
            'shutil.rmtree', 'shutil.move', 'shutil.copyfile'}
ERRNO = {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'eacces': errno.EACCES,
         'emfile': errno.EMFILE}


class Published(object):
    """What the server publishes: a callable that makes a fitter."""

    def __init__(self, version, size):
        self.version = version
        self.payload = payload(version, size)

    def __call__(self):
        return Loaded(self.version, hashlib.md5(self.payload).hexdigest())


class Loaded(object):

    def __init__(self, version, digest):
        self.version, self.digest = version, digest


def payload(version, size):
    seed = hashlib.sha256(str(version).encode()).digest()
    return (seed * (size // 32 + 1))[:size]


class NotAFitter(object):
    """Unpickles, but cannot be used."""


def unlucky():
    raise RuntimeError('this fitter does not start')


class Response(object):
    """An answer of the simulated server."""

    def __init__(self, body, length, point, breaks=None, how=None):
        self.body, self.point = body, point
        self.at = 0
        self.breaks, self.how = breaks, how
        self.closed = False
        h = email.message.Message()
        if length is not None:
            h['Content-Length'] = str(length)
        self.headers = h
        self.status = self.code = 200

    def info(self):
        return self.headers

    def getcode(self):
        return 200

    def getheader(self, n, d=None):
        return self.headers.get(n, d)

    def read(self, n=-1):
        self.point('net.read')
        end = len(self.body) if n is None or n < 0 else self.at + n
        if self.breaks is not None and end > self.breaks:
            if self.how == 'reset':
                raise ConnectionResetError('connection reset (simulated)')
            if self.how == 'timeout':
                raise TimeoutError('timed out (simulated)')
            end = max(self.at, self.breaks)      # looks like the end
        b = self.body[self.at:end]
        self.at = min(len(self.body), end)
        return b

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[:len(b)] = b
        return len(b)

    def readable(self):
        return True

    def __iter__(self):
        while True:
            b = self.read(65536)
            if not b:
                return
            yield b

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class World(object):

    def __init__(self, ctx, name):
        self.ctx = ctx
        self.name = name
        self.root = tempfile.mkdtemp(prefix='simfit-c08-')
        os.mkdir(os.path.join(self.root, 'menpofit'))
        os.mkdir(os.path.join(self.root, 'tmp'))
        # temporary files of the code under test stay in here as well
        tempfile.tempdir = os.environ['TMPDIR'] = os.path.join(self.root,
                                                               'tmp')
        self.names = {}
        self.installed = False
        self._setup_paths()

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def _setup_paths(self):
        """Redirect the cache of this process (and its children)."""
        import menpofit.base
        import menpofit.io
        from pathlib import Path
        menpofit.base.__file__ = os.path.join(self.root, 'menpofit',
                                              'base.py')
        menpofit.io.__file__ = os.path.join(self.root, 'menpofit', 'io.py')
        if hasattr(menpofit.io, 'menpofit_src_dir_path'):
            menpofit.io.menpofit_src_dir_path = lambda: Path(
                self.root) / 'menpofit'
        p = str(menpofit.io.path_of_fitter(self.name))
        if not p.startswith(self.root + os.sep):
            raise RuntimeError('the cache is not in the scratch directory')
        self.path = p
        shutil.rmtree(os.path.dirname(p), ignore_errors=True)

    # ------------------------------------------------------------- content

    def content(self):
        try:
            with open(self.path, 'rb') as f:
                return f.read()
        except OSError:
            return None

    def put(self, data):
        d = os.path.dirname(self.path)
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(self.path, 'wb') as f:
            f.write(data)

    def short(self, path):
        """A name for a path that does not depend on random file names."""
        path = str(path)
        if path == self.path:
            return 'cache'
        if path == os.path.dirname(self.path):
            return 'dir'
        if path not in self.names:
            self.names[path] = 'file%d' % len(self.names)
        return self.names[path]

    # ------------------------------------------------------------- loaders

    def spawn(self, server, fsize=None, fine=False, line=None, call=None):
        """A loader that waits at its first seam point."""
        up_r, up_w = os.pipe()
        down_r, down_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(up_r)
                os.close(down_w)
                self._child(up_w, down_r, server, fsize, fine, line, call)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(up_w)
        os.close(down_r)
        return Loader(self, pid, up_r, down_w)

    def _child(self, up, down, server, fsize, fine, line, call):
        send = lambda m: _write(up, m)
        busy = [True]

        def point(what, path=None):
            if busy[0]:
                return
            busy[0] = True
            try:
                send(('at', what, path))
                order = _read(down)
            finally:
                busy[0] = False
            k = order[0]
            if k == 'go':
                return
            if k == 'die':
                os._exit(9)
            if k == 'interrupt':
                raise KeyboardInterrupt('simulated')
            if k == 'memory':
                raise MemoryError('simulated')
            if k == 'error':
                if what.startswith('net'):
                    raise ConnectionResetError('simulated')
                raise OSError(ERRNO[order[1]], os.strerror(
                    ERRNO[order[1]]) + ' (simulated)', path)
        root = self.root + os.sep
        cache = os.path.join(self.root, 'menpofit') + os.sep

        def hook(event, args):
            if busy[0]:
                return
            if event == 'open':
                p, mode, flags = args
                if isinstance(p, int):
                    return
                p = os.path.abspath(os.fsdecode(p))
                wr = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT |
                                   os.O_TRUNC))
                if p.startswith(cache):
                    point('open-w' if wr else 'open-r', p)
                elif wr and not p.startswith((root, '/dev/')):
                    send(('escape', 'open', p))
                    os._exit(8)
            elif event in MUTATORS:
                ps = [os.path.abspath(os.fsdecode(a)) for a in args
                      if isinstance(a, (str, bytes, os.PathLike))]
                for p in ps:
                    if not (p + os.sep).startswith(root):
                        send(('escape', event, p))
                        os._exit(8)
                if ps and ps[-1].startswith(cache):
                    point(event, ps[-1])
            elif event == 'socket.connect':
                raise ConnectionRefusedError('no network in the simulation')

        def urlopen(url, *a, **k):
            send(('net',))
            point('net.open')
            mode = server['mode']
            body = server['body']
            if mode == 'down':
                from urllib.error import URLError
                raise URLError('unreachable (simulated)')
            if mode == '404':
                from urllib.error import HTTPError
                raise HTTPError(str(url), 404, 'Not found', None, None)
            n = len(body)
            cut = int(server.get('frac', 0.5) * n)
            if mode == 'html':
                b = b'<html><body>Please log in</body></html>' * 40
                return Response(b, len(b), point)
            if mode == 'empty':
                return Response(b'', 0, point)
            if mode in ('truncated', 'reset', 'timeout'):
                return Response(body, n, point, cut, mode)
            if mode == 'nolength':
                return Response(body, None, point)
            if mode == 'badpickle':
                return Response(server['bad'], len(server['bad']), point)
            return Response(body, n, point)
        import menpofit.io
        import urllib.request
        menpofit.io.urlopen = urlopen
        urllib.request.urlopen = urlopen
        sys.addaudithook(hook)
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        src = menpofit.io.load_fitter.__code__.co_filename
        n = [0]

        def tr(frame, event, arg):
            if frame.f_code.co_filename != src:
                return None

            def local(frame, event, arg):
                if event == 'line':
                    n[0] += 1
                    if fine:
                        point('line')
                    if line is not None and n[0] == line[0]:
                        send(('line', line[1]))
                        if line[1] == 'die':
                            os._exit(9)
                        raise (KeyboardInterrupt if line[1] == 'interrupt'
                               else MemoryError)('simulated')
                return local
            return local
        busy[0] = False
        point('start')
        try:
            if fine or line is not None:
                sys.settrace(tr)
            f = (call or menpofit.io.load_fitter)(self.name)
            sys.settrace(None)
            busy[0] = True      # looking at the fitter is not part of it
            if isinstance(f, Loaded):
                out = ('ok', f.version, f.digest)
            else:
                out = ('ok', describe(f), '')
        except BaseException as e:
            sys.settrace(None)
            busy[0] = True
            import re
            out = ('exc', type(e).__name__, re.sub(
                r'[0-9a-f]{32}|simfit-c08-\w+', '*', str(e))[:120])
        send(('end', out))


def describe(f):
    """What an actual fitter does."""
    d = getattr(f, 'sim_describe', None)
    if d is not None:
        return d()
    if hasattr(f, 'wrapped_fitter'):
        from . import snap, world
        im = world.image(77, (52, 52), 1)
        r = f.fit_from_shape(im, world.as_kind(
            im.landmarks['PTS'].points + 1.5, 'pc'), max_iters=2)
        return 'fit %r' % [round(float(x), 5)
                           for x in r.final_shape.points.ravel()]
    return 'not a fitter: %s' % type(f).__name__


def _write(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<I', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _readn(fd, n, limit=30.):
    out = b''
    t0 = time.monotonic()
    while len(out) < n:
        left = limit - (time.monotonic() - t0)
        if left <= 0 or not select.select([fd], [], [], left)[0]:
            raise TimeoutError
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _read(fd, limit=600.):
    n = struct.unpack('<I', _readn(fd, 4, limit))[0]
    return pickle.loads(_readn(fd, n, limit))


class Loader(object):

    def __init__(self, world, pid, r, w):
        self.world, self.pid, self.r, self.w = world, pid, r, w
        self.where = None
        self.done = None        # the outcome
        self.steps = 0
        self.nets = 0
        self.hit = []           # faults
        self._wait()

    def _wait(self):
        while True:
            try:
                m = _read(self.r, 30.)
            except EOFError:
                self.done = ('died',)
                break
            except TimeoutError:
                os.kill(self.pid, signal.SIGKILL)
                self.done = ('hang',)
                break
            if m[0] == 'at':
                self.where = m[1], (self.world.short(m[2]) if m[2] else '')
                self.steps += 1
                return
            if m[0] == 'net':
                self.nets += 1
            elif m[0] == 'line':
                self.hit.append(m[1] + ' at a line')
            elif m[0] == 'end':
                self.done = m[1]
                break
            elif m[0] == 'escape':
                self.done = ('escape', m[1], m[2])
                break
        os.close(self.r)
        os.close(self.w)
        os.waitpid(self.pid, 0)

    def order(self, *what):
        _write(self.w, what)
        if what[0] == 'die':
            self.hit.append('crash')
        elif what[0] != 'go':
            self.hit.append(' '.join(what))
        self._wait()
