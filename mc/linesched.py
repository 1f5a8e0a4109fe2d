"""Yield points of the controlled scheduler at every source line of the package under test.

Threads run real code; before each line in a file of /repo/karabo_data the thread offers to
switch.  Lines which run below a frame of h5py are left out: h5py holds its global lock there, so
no other thread could read anyway.  In loops, the first `reps` executions of a line per call count, and optionally the first `cap` ones in all calls of a thread.
"""
import os
import sys
import threading

from .core import REPO
from .sched import Sched, Killed

PKG = os.path.realpath(os.path.join(REPO, 'karabo_data')) + os.sep
TESTS = PKG + 'tests' + os.sep
_ours = {}


def ours(fn):
    r = _ours.get(fn)
    if r is None:
        p = os.path.realpath(fn)
        r = _ours[fn] = p.startswith(PKG) and not p.startswith(TESTS)
    return r


def under_h5py(frame):
    f = frame.f_back
    while f is not None:
        m = f.f_globals.get('__name__', '')
        if m.startswith('h5py'):
            return True
        f = f.f_back
    return False


class LineSched(Sched):
    """Sched with a quick way through the many yield points at which nothing happens"""
    COST = [None, (0, 1), (0, 1, 1), (0, 1, 1, 1)]

    def yield_(self, label=''):
        t = self.by_ident.get(threading.get_ident())
        if t is None:
            return
        if not self.dead:
            i = len(self.choices)
            if i >= len(self.prefix) or self.prefix[i] == 0:
                n = 0
                for o in self.threads:
                    if o.state == 'blocked':
                        break
                    if o is not t and o.state == 'run':
                        n += 1
                else:
                    if self.steps < self.max_steps:
                        self.steps += 1
                        t.label = label
                        if n:
                            self.choices.append((0, self.COST[n]))
                        return
        Sched.yield_(self, label)


class LineTracer:
    def __init__(self, sched, reps=2, cap=None):
        self.sched = sched
        self.cap = cap          # of executions of a line in a thread, in all calls
        self.total = threading.local()
        self.reps = reps
        self.lines = set()

    def wrap(self, fn):
        def run():
            sys.settrace(self.call)
            try:
                return fn()
            finally:
                sys.settrace(None)
        return run

    def call(self, frame, event, arg):
        if not ours(frame.f_code.co_filename):
            return None
        if under_h5py(frame):
            return None
        seen = {}
        name = os.path.basename(frame.f_code.co_filename)
        sched, reps, lines, cap = self.sched, self.reps, self.lines, self.cap
        if cap:
            total = self.total.__dict__

        def line(frame, event, arg):
            if event == 'line':
                n = seen.get(frame.f_lineno, 0)
                if cap:
                    k = frame.f_code, frame.f_lineno
                    total[k] = total.get(k, 0) + 1
                    if total[k] > cap:
                        return line
                if n < reps:
                    seen[frame.f_lineno] = n + 1
                    lines.add((name, frame.f_lineno))
                    sched.yield_((name, frame.f_lineno))
            return line
        return line


class Lock:
    """Lock or RLock which lets the scheduler go on when it is taken"""
    current = None         # scheduler

    def __init__(self, real):
        self.real = real

    def acquire(self, blocking=True, timeout=-1):
        s = Lock.current
        if s is None or s.me() is None or not blocking:
            return self.real.acquire(blocking, timeout)
        while not self.real.acquire(False):

            def ready():
                # evaluated by another thread, so an RLock is not owned by it
                if self.real.acquire(False):
                    self.real.release()
                    return not self.held()
                return False
            s.block(ready, 'lock')
        return True

    def held(self):
        try:
            return self.real.locked()
        except AttributeError:
            return 'count=0' not in repr(self.real)

    def release(self):
        self.real.release()

    def locked(self):
        return self.held()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(self.real, n)


_Real = threading.Lock, threading.RLock
_types = type(threading.Lock()), type(threading.RLock())


def install_locks():
    """Locks created by the package from now on, or held in its modules, classes, can be waited for"""
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] != 'karabo_data' or mod is None or '.tests' in name:
            continue
        for k, v in list(vars(mod).items()):
            if isinstance(v, _types):
                setattr(mod, k, Lock(v))
            elif v is _Real[0]:
                setattr(mod, k, lambda: Lock(_Real[0]()))
            elif v is _Real[1]:
                setattr(mod, k, lambda: Lock(_Real[1]()))
            elif v is threading:
                setattr(mod, k, FakeThreading())
            elif isinstance(v, type) and v.__module__ == name:
                for k2, v2 in list(vars(v).items()):
                    if isinstance(v2, _types):
                        setattr(v, k2, Lock(v2))


class FakeThreading:
    def __getattr__(self, n):
        if n == 'Lock':
            return lambda: Lock(_Real[0]())
        if n == 'RLock':
            return lambda: Lock(_Real[1]())
        return getattr(threading, n)
