"""Fault injection: interrupts and errors at the line level, call level
faults, and a watch on the global random state."""
import os
import pickle
import select
import signal
import sys
import threading
import time

import numpy as np

from . import env


class SimInterrupt(KeyboardInterrupt):
    """The user interrupts the program (Ctrl-C) at this point."""


class SimMemoryError(MemoryError):
    pass


class SimIOError(OSError):
    pass


class StepBudget(BaseException):
    """More steps than any terminating execution takes."""


def _in_scope_menpofit(fn):
    return fn.startswith(env.SRC)


_MENPO = [None]


def _menpo_dir():
    if _MENPO[0] is None:
        import menpo
        _MENPO[0] = os.path.dirname(menpo.__file__) + os.sep
    return _MENPO[0]


class LineTrace(object):
    """Counts the executed lines in scope; calls ``at`` when the target line
    is about to be executed; stops the execution after ``budget`` lines."""

    def __init__(self, target=None, exc=None, budget=None, scope='menpofit'):
        self.n = 0
        self.target = target
        self.exc = exc
        self.budget = budget
        self.fired = False
        self.where = None
        self._cache = {}
        self._prefix = ((env.SRC,) if scope == 'menpofit'
                        else (env.SRC, _menpo_dir()))

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        r = self._cache.get(fn)
        if r is None:
            r = self._cache[fn] = fn.startswith(self._prefix)
        return self._local if r else None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n == self.target:
                self.fired = True
                self.where = '{}:{}'.format(
                    os.path.basename(frame.f_code.co_filename),
                    frame.f_code.co_name)
                raise self.exc
            if self.budget is not None and self.n > self.budget:
                raise StepBudget()
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


EXC = {'interrupt': SimInterrupt, 'memory': SimMemoryError,
       'linalg': np.linalg.LinAlgError, 'io': SimIOError}


class Waiting(object):
    """A child that is forked now and runs ``fn(argument)`` later, when the
    argument is known."""

    def __init__(self, fn):
        self.r, w = os.pipe()
        ar, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(self.r)
                os.close(self.w)
                # (later children hold a copy of the writing end, so there
                # is no end of file to wait for)
                with os.fdopen(ar, 'rb') as f:
                    a = pickle.load(f)
                try:
                    out = ('ok', fn(a))
                except BaseException as e:
                    out = ('exc', type(e).__name__, str(e)[:200])
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f, protocol=4)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        os.close(ar)

    def ask(self, argument, limit=60.):
        with os.fdopen(self.w, 'wb') as f:
            f.write(pickle.dumps(argument, protocol=4))
        self.w = None
        return _collect(self.r, self.pid, limit)

    def dismiss(self):
        """The argument never came."""
        if self.w is not None:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            os.close(self.w)
            os.close(self.r)
            self.w = None


def isolated(fn, limit=60.):
    """Run ``fn`` in a forked child. Returns ('ok', value), ('exc', type name)
    or ('died', why). The caller's process is not touched."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException as e:
                out = ('exc', type(e).__name__, str(e)[:200])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f, protocol=4)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return _collect(r, pid, limit)


def _collect(r, pid, limit):
    chunks = []
    t0 = time.monotonic()
    try:
        while True:
            left = limit - (time.monotonic() - t0)
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                return ('died', 'timeout')
            ready, _, _ = select.select([r], [], [], left)
            if ready:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                chunks.append(b)
    finally:
        os.close(r)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    try:
        return pickle.loads(b''.join(chunks))
    except Exception:
        return ('died', 'no answer')


def count_lines(fn, scope='menpofit', limit=60.):
    """Lines that ``fn`` executes from the current state (in a child)."""
    def go():
        t = LineTrace(scope=scope)
        try:
            with t:
                fn()
        except BaseException:
            pass
        return t.n
    r = isolated(go, limit)
    return r[1] if r[0] == 'ok' else 0


def with_fault(fn, fault, ctx=None):
    """Call ``fn`` under a fault spec. Returns ('ok', value) or
    ('exc', type name, message). Kinds:

    line: an exception of class ``exc`` at the fraction ``frac`` of the lines
    hook: the n-th call of a feature/perturbation/preprocessing raises
    solve: the n-th linear solve raises, or returns nan / huge / zero
    """
    if not fault:
        try:
            return ('ok', fn())
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:300])
    kind = fault['kind']
    fired = [False]
    if kind == 'line':
        scope = fault.get('scope', 'menpofit')
        n = count_lines(fn, scope)
        target = 1 + int(fault['frac'] * n)
        tr = LineTrace(target, EXC[fault['exc']]('injected'), scope=scope)
        try:
            with tr:
                out = ('ok', fn())
        except (Exception, KeyboardInterrupt) as e:
            out = ('exc', type(e).__name__, str(e)[:300])
        if ctx and tr.fired:
            ctx.fault('%s at a line (%s)' % (fault['exc'], scope))
            ctx.state('line', tr.where)
        return out
    if kind == 'hook':
        from . import feats
        cnt = [0]

        def h(name):
            cnt[0] += 1
            if cnt[0] == fault['n']:
                fired[0] = True
                raise EXC[fault['exc']]('injected in ' + name)
        feats.set_hook(h)
        try:
            out = ('ok', fn())
        except (Exception, KeyboardInterrupt) as e:
            out = ('exc', type(e).__name__, str(e)[:300])
        finally:
            feats.set_hook(None)
        if ctx and fired[0]:
            ctx.fault('%s in a callback' % fault['exc'])
        return out
    if kind == 'solve':
        with patched_solve(fault, fired):
            try:
                out = ('ok', fn())
            except (Exception, KeyboardInterrupt) as e:
                out = ('exc', type(e).__name__, str(e)[:300])
        if ctx and fired[0]:
            ctx.fault('linear solve: ' + fault['mode'])
        return out
    raise ValueError(kind)


class Conditions(object):
    """The worst condition number of the (square) systems solved meanwhile."""

    def __enter__(self):
        import scipy.linalg
        self.worst = 1.
        self.old = [(m, n, getattr(m, n)) for m in (np.linalg, scipy.linalg)
                    for n in ('solve', 'inv')]
        for m, n, f in self.old:
            setattr(m, n, self._wrap(f))
        return self

    def _wrap(self, orig):
        def probe(a, *args, **kw):
            try:
                x = np.asarray(a, dtype=complex)
                c = (np.linalg.cond(x) if np.isfinite(x).all() and
                     x.shape[-1] <= 60 else 1.)
                self.worst = max(self.worst, float(np.max(c)))
            except (np.linalg.LinAlgError, TypeError, ValueError):
                pass
            return orig(a, *args, **kw)
        return probe

    def __exit__(self, *a):
        for m, n, f in self.old:
            setattr(m, n, f)


class patched_solve(object):
    """Replaces numpy.linalg.solve (and scipy's) for calls from menpofit."""

    def __init__(self, fault, fired=None):
        self.f = fault
        self.fired = fired if fired is not None else [False]
        self.n = 0

    def _wrap(self, orig):
        def solve(a, b, *args, **kw):
            # optimisation steps are solved by menpofit itself; menpo solves
            # for alignments, which are no steps
            if not sys._getframe(1).f_code.co_filename.startswith(env.SRC):
                return orig(a, b, *args, **kw)
            self.n += 1
            every = self.f.get('every')
            hit = (self.n >= self.f['n']) if every else self.n == self.f['n']
            if not hit:
                return orig(a, b, *args, **kw)
            self.fired[0] = True
            mode = self.f['mode']
            if mode == 'singular':
                raise np.linalg.LinAlgError('Singular matrix (injected)')
            x = orig(a, b, *args, **kw) if mode not in ('nan',) else None
            if mode == 'nan':
                return np.full(np.shape(b), np.nan)
            if mode == 'zero':
                return np.zeros_like(x)
            if mode == 'huge':
                return x * 1e6
            if mode == 'big':
                return x * 5.
            if mode == 'flip':
                return -x
            if mode == 'osc':
                return x + 0.5 * (-1) ** self.n
            raise ValueError(mode)
        return solve

    def __enter__(self):
        import scipy.linalg
        self._o = (np.linalg.solve, scipy.linalg.solve)
        np.linalg.solve = self._wrap(np.linalg.solve)
        scipy.linalg.solve = self._wrap(scipy.linalg.solve)
        return self

    def __exit__(self, *a):
        import scipy.linalg
        np.linalg.solve, scipy.linalg.solve = self._o
        return False


def rng_state():
    import random
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], hash(random.getstate()))


def gen_fault(rng, kinds=('line', 'hook', 'solve')):
    k = rng.choice(kinds)
    if k == 'line':
        return dict(kind='line', frac=round(rng.random(), 4),
                    exc=rng.choice(['interrupt', 'interrupt', 'memory',
                                    'linalg']),
                    scope=rng.choice(['menpofit', 'menpofit', 'all']))
    if k == 'hook':
        return dict(kind='hook', n=rng.choice([1, 1, 2, 3]),
                    exc=rng.choice(['interrupt', 'memory', 'io']))
    return dict(kind='solve', n=rng.choice([1, 1, 2, 3, 4]),
                mode=rng.choice(['singular', 'nan', 'huge', 'flip']),
                every=rng.random() < 0.4)
