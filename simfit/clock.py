"""A simulated clock in place of every wall clock the code can read."""
import datetime
import sys
import time

from . import rng as R

_REAL = {id(f): f for f in (time.time, time.perf_counter, time.monotonic,
                            time.process_time)}
KINDS = ['stalled', 'smooth', 'jumps', 'back', 'erratic', 'epoch']


class Clock(object):
    """t, advanced at every reading by a seeded step."""

    def __init__(self, kind, seed):
        self.kind = kind
        self.t = {'epoch': 0.}.get(kind, 1.6e9)
        self.r = R.make('clock', kind, seed)
        self.span = 0.
        self.reads = 0
        self._undo = []

    def __call__(self):
        r = self.r
        d = {'stalled': lambda: 0., 'epoch': lambda: 0.,
             'smooth': lambda: 0.02,
             'jumps': lambda: r.choice([0.01, 1., 3600., 8640000.]),
             'back': lambda: r.choice([0.5, -0.7, 10., -3600.]),
             'erratic': lambda: r.choice([0., 1e-9, 86400. * 400,
                                          -86400. * 300, 0.3])}[self.kind]()
        # within what datetime can print
        if not 0. <= self.t + d <= 4e9:
            d = -d
        self.t += d
        self.span += abs(d)
        self.reads += 1
        return self.t

    def __enter__(self):
        for name, m in list(sys.modules.items()):
            if m is None or not (name == 'time' or name.split('.')[0] in
                                 ('menpo', 'menpofit')):
                continue
            for k, v in list(vars(m).items()):
                if callable(v) and id(v) in _REAL and _REAL[id(v)] is v:
                    setattr(m, k, self)
                    self._undo.append((m, k, v))
        return self

    def __exit__(self, *a):
        for m, k, v in self._undo:
            setattr(m, k, v)
        return False
