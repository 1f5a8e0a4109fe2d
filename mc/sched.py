"""Controlled scheduler: real threads, of which exactly one runs at any time.

Threads give up control only at yield points; at each one the scheduler chooses who
continues, following a given prefix of choices and then the default (keep running the
same thread).  explore() enumerates all choice sequences with at most `bound`
preemptions (leaving a thread which could have continued), depth first.
"""
import sys
import threading
import time


class Killed(BaseException):
    """Raised in controlled threads to end an execution early"""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class _T:
    __slots__ = ('tid', 'name', 'fn', 'thread', 'sem', 'state', 'ready', 'exc', 'result', 'label', 'timed', 'daemon')


class Sched:
    def __init__(self, prefix=(), max_steps=5000):
        self.prefix = list(prefix)
        self.threads = []
        self.by_ident = {}
        self.choices = []      # (chosen index, n options, preemptive flags per option)
        self.steps = 0
        self.max_steps = max_steps
        self.cur = None
        self.dead = False
        self.problem = None
        self.main_sem = threading.Semaphore(0)
        self.log = []
        self.keep_log = False
        self.on_step = None
        self.end_with_main = False   # end when only daemon threads are left
        self.early_timeouts = False  # timeouts may happen (as a preemption) while others can go on
        self.delay_bound = False     # count every deviation from the default schedule
        self.progress = self.last_progress = 0   # counted up by the operations which change anything
        self.idle = 0
        self.max_idle = 12

    # -- creating threads
    def spawn(self, name, fn, daemon=False):
        t = _T()
        t.tid, t.name, t.fn, t.daemon = len(self.threads), name, fn, daemon
        t.sem = threading.Semaphore(0)
        t.state, t.ready, t.exc, t.result, t.label, t.timed = 'new', None, None, None, 'start', False
        self.threads.append(t)
        t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
        t.thread.start()
        t.state = 'run'
        return t

    def _body(self, t):
        self.by_ident[threading.get_ident()] = t
        t.sem.acquire()
        try:
            if self.dead:
                raise Killed
            t.result = t.fn()
        except Killed:
            pass
        except BaseException as e:
            t.exc = e
        finally:
            t.state = 'done'
            self.progress += 1
            if self.dead:
                self.main_sem.release()
            else:
                self._next(t, ended=True)

    def me(self):
        return self.by_ident.get(threading.get_ident())

    # -- scheduling
    def _enabled(self):
        out = []
        for t in self.threads:
            if t.state == 'run':
                out.append(t)
            elif t.state == 'blocked' and t.ready():
                out.append(t)
        return out

    def _pick(self):
        """Choose the next thread; returns None at the end"""
        if self.end_with_main and all(t.state == 'done' or t.daemon for t in self.threads):
            return None
        en = self._enabled()
        timed = [t for t in self.threads if t.state == 'blocked' and t.timed and t not in en]
        if not en:
            # only timeouts can happen now; if they lead nowhere, nothing else ever will
            self.idle = self.idle + 1 if self.progress == self.last_progress else 0
            self.last_progress = self.progress
            if not timed or self.idle > self.max_idle:
                return None
            opts, cost = timed, [0] * len(timed)
            # take turns, or one of several polling threads could go on for ever
            k = self.idle % len(timed)
            opts = opts[k:] + opts[:k]
        else:
            last = self.cur
            if last in en:
                opts = [last] + [t for t in en if t is not last]
                cost = [0] + [1] * (len(opts) - 1)
            else:
                opts, cost = en, [0] * len(en)
            if self.early_timeouts:
                opts = opts + timed
                cost = cost + [1] * len(timed)
        if self.delay_bound:
            cost = [0] + [1] * (len(opts) - 1)
        if len(opts) == 1:
            return opts[0]
        i = self.prefix[len(self.choices)] if len(self.choices) < len(self.prefix) else 0
        self.choices.append((i, cost))
        return opts[i]

    def _next(self, me, ended=False):
        """Called by the running thread when it yields, blocks or ends"""
        self.steps += 1
        if self.on_step is not None and self.problem is None:
            try:
                self.on_step()
            except BaseException as e:
                self.problem = e
        if self.problem is None and self.steps > self.max_steps:
            self.problem = StepLimit('execution does not end within %d steps' % self.max_steps)
        nxt = None if self.problem else self._pick()
        if nxt is None:
            if self.problem is None and any(t.state != 'done' and not t.daemon for t in self.threads):
                self.problem = Deadlock(', '.join('%s waits for %s' % (t.name, t.label)
                                                  for t in self.threads if t.state != 'done'))
            self.dead = True
            self.main_sem.release()
            if not ended:
                me.sem.acquire()
                raise Killed
            return
        self.cur = nxt
        if self.keep_log:
            self.log.append((nxt.name, nxt.label))
        if nxt is me:
            return
        nxt.sem.release()
        if not ended:
            me.sem.acquire()
            if self.dead:
                raise Killed

    def yield_(self, label=''):
        t = self.me()
        if t is None:
            return
        if self.dead:
            raise Killed
        t.label = label
        self._next(t)

    def block(self, ready, label='', timed=False):
        """Wait until ready() (evaluated by whichever thread schedules) -> False if timed out"""
        t = self.me()
        if self.dead:
            raise Killed
        t.label, t.ready, t.timed, t.state = label, ready, timed, 'blocked'
        self._next(t)
        t.state = 'run'
        t.ready = None
        ok = ready()
        assert ok or timed
        return ok

    def run(self):
        """Run all spawned threads to the end of the execution"""
        self.cur = None
        first = self._pick()
        if first is not None:
            self.cur = first
            if self.keep_log:
                self.log.append((first.name, first.label))
            first.sem.release()
            self.main_sem.acquire()
        # end whatever is left
        self.dead = True
        for t in self.threads:
            if t.state != 'done':
                t.sem.release()
        for t in self.threads:
            t.thread.join(20)
        left = [t.name for t in self.threads if t.thread.is_alive()]
        if left:
            from .core import HarnessError
            import traceback
            fr = sys._current_frames()
            st = [''.join(traceback.format_stack(fr[t.thread.ident])[-8:]) for t in self.threads if t.thread.ident in fr]
            raise HarnessError('threads %s did not end:\n%s\n%s' % (left, '\n'.join(st), self.log[-20:]))


def explore(run, bound, limit=None):
    """run(prefix) -> Sched after the execution. Yields each Sched; exhaustive within the preemption bound."""
    prefix = []
    n = 0
    while True:
        s = run(prefix)
        n += 1
        yield s
        ch = s.choices
        if limit and n >= limit:
            return
        # next prefix: last position that has another option within the bound
        i = len(ch) - 1
        spent = []
        tot = 0
        for idx, cost in ch:
            spent.append(tot)
            tot += cost[idx]
        while i >= 0:
            idx, cost = ch[i]
            nxt = idx + 1
            while nxt < len(cost) and spent[i] + cost[nxt] > bound:
                nxt += 1
            if nxt < len(cost):
                prefix = [c[0] for c in ch[:i]] + [nxt]
                break
            i -= 1
        else:
            return
