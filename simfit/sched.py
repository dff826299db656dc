"""A scheduler for real threads: exactly one runs at a time, and a list of
events decides which one, at the granularity of executed Python lines."""
import os
import sys
import threading

from . import env, faults, shared

LOCKED = 20.        # seconds without a scheduling point: the thread blocks


class Blocked(Exception):
    """A thread waits for something that a paused thread holds."""


class Thread(object):
    def __init__(self, sched, i, fn):
        self.sched, self.i, self.fn = sched, i, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.out = None
        self.lines = 0          # of the current operation
        self.target = None
        self.exc = None
        self.fired = None
        self.counts = []
        self.places = None      # the lines it ran, if wanted

    # ------------------------------------------------------------- tracing
    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        r = self.sched.scope.get(fn)
        if r is None:
            r = self.sched.scope[fn] = fn.startswith(self.sched.prefix)
        return self._local if r else None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.lines == self.target:
                self.fired = where(frame)
                raise self.exc
            s = self.sched
            if self.places is not None:
                self.places.add((frame.f_code.co_filename, frame.f_lineno))
            s.left -= 1
            if frame.f_lineno in s.hot and s.reached(self, frame):
                return self._local
            if s.past is not None and s.past[0] != self.i:
                s.past[1] -= 1
                if s.past[1] < 0:
                    s.back(self, frame)
                return self._local
            if s.meet is not None and frame.f_code is s.meet[0] and \
                    s.meet[2] != self.i:
                s.meet[1] -= 1
                if s.meet[1] <= 0:
                    s.left = 0
            if s.left <= 0:
                s.switch(self, frame)
        return self._local

    def op(self, fn, target=None, exc=None):
        """One operation of this thread, under the scheduler."""
        self.lines, self.target, self.exc = 0, target, exc
        self.fired = None
        sys.settrace(self._global)
        try:
            out = ('ok', fn())
        except (Exception, KeyboardInterrupt) as e:
            out = ('exc', type(e).__name__, str(e)[:200])
        finally:
            sys.settrace(None)
        self.counts.append(self.lines)
        return out

    def main(self):
        self.sem.acquire()
        try:
            self.out = self.fn(self)
        except BaseException:
            import traceback
            self.out = None
            self.sched.error = traceback.format_exc()[-2000:]
        self.done = True
        self.sched.next(self)


def where(frame):
    return '{}:{}'.format(os.path.basename(frame.f_code.co_filename),
                          frame.f_code.co_name)


class Scheduler(object):
    """fns: one function per thread, called with its Thread. events: [lines
    until the switch, number that selects the next thread, n]. With n the
    chosen thread runs until it executed n lines of the very function that
    the other one was paused in, and the paused one continues then. Without
    events left a thread runs to its end and the next one follows.

    Events ['at', r, k, number, m, more, times, hot] are all in force at once. Each
    names a line of code (the fraction r of places, or of those next to uses
    of module or class level state): the thread that gets
    there the k-th time is paused right before it, and the chosen one runs
    until it passed the same line m times and `more` lines after that; the
    paused one continues then. That happens `times` times."""

    def __init__(self, fns, events, on_switch=None, scope='all', places=()):
        self.threads = [Thread(self, i, f) for i, f in enumerate(fns)]
        self.patience = 3000 if scope == 'menpofit' else 30000
        self._arm([e for e in events if e[0] == 'at'], places)
        self.events = [e for e in events if e[0] != 'at']
        self.pos = 0
        self.scope = {}
        self.prefix = (env.SRC,) if scope == 'menpofit' else \
            (env.SRC, faults._menpo_dir())
        self.over = threading.Semaphore(0)
        self.on_switch = on_switch
        self.switches = 0
        self.error = None
        self.ticks = 0
        self._load()

    def _load(self):
        self.ticks += 1
        self.meet = None
        if self.pos < len(self.events):
            self.left = max(1, self.events[self.pos][0])
        else:
            self.left = float('inf')

    # ------------------------------------------------ events at lines of code
    def _arm(self, events, places):
        self.hot, self.at, self.past = set(), {}, None
        hot = [p for p in places if p[1] in shared.lines(p[0])]
        for ev in events:
            if not places:
                break
            p = hot if hot and ev[7] else places
            f, l = p[min(int(ev[1] * len(p)), len(p) - 1)]
            self.hot.add(l)
            self.at[f, l] = [ev[2] - 1, ev[6], ev]

    def reached(self, me, frame):
        """Deal with a line that some event may name."""
        here = frame.f_code.co_filename, frame.f_lineno
        if self.past is not None:
            who, left, place, m, more = self.past
            if place == here and who != me.i and m > 0:
                self.past[3] -= 1
                if m == 1:
                    self.past[1] = more
            return False
        at = self.at.get(here)
        if at is None or at[1] <= 0:
            return False
        if at[0] > 0:
            at[0] -= 1
            return False
        others = self._alive(me)
        if not others:
            return False
        at[1] -= 1
        ev = at[2]
        to = others[ev[3] % len(others)]
        self.past = [me.i, self.patience, here, ev[4], ev[5]]
        self.go(me, to, frame)
        return True

    def back(self, me, frame):
        to = self.threads[self.past[0]]
        self.past = None
        if not to.done:
            self.go(me, to, frame)

    def _alive(self, but):
        return [t for t in self.threads if not t.done and t is not but]

    def switch(self, me, frame):
        others = self._alive(me)
        if self.meet is not None:
            to = self.threads[self.meet[2]]
            self._load()
            if to.done:
                return
        else:
            ev = self.events[self.pos]
            self.pos += 1
            self._load()
            if not others:
                return
            to = others[ev[1] % len(others)]
            if len(ev) > 2 and ev[2]:
                self.meet = [frame.f_code, ev[2], me.i]
                self.left = float('inf')
        self.go(me, to, frame)

    def go(self, me, to, frame):
        self.switches += 1
        if self.on_switch:
            self.on_switch(me.i, to.i, where(frame))
        to.sem.release()
        me.sem.acquire()

    def next(self, me):
        others = self._alive(me)
        self.ticks += 1
        if self.meet is not None:
            self._load()
        if self.past is not None and self.past[0] != me.i:
            # the paused one goes on
            others = [self.threads[self.past[0]]]
            self.past = None
        if others:
            others[0].sem.release()
        else:
            self.over.release()

    def run(self):
        ts = [threading.Thread(target=t.main, daemon=True)
              for t in self.threads]
        for t in ts:
            t.start()
        self.threads[0].sem.release()
        seen = -1
        while not self.over.acquire(timeout=LOCKED):
            n = self.ticks + sum(t.lines for t in self.threads)
            if n == seen:
                raise Blocked()
            seen = n
        for t in ts:
            t.join()
        return [t.out for t in self.threads]
