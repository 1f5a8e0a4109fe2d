"""Stand-ins for threading, queue, time and zmq, driven by the controlled scheduler.

load(sched_holder) imports a private copy of karabo_data.export on top of them, so the
real streaming code runs, but every blocking or shared operation is a scheduling point.
"""
import collections
import errno
import importlib.util
import queue as real_queue
import sys
import threading as real_threading
import time as real_time
import types

from .core import HarnessError


class World:
    """Everything shared in one execution"""
    def __init__(self, sched):
        self.s = sched
        self.clock = 1500000000.25
        self.bound = {}                                  # port -> REP socket
        self.waiting = collections.defaultdict(list)     # port -> requests not yet received by a server
        self.pending = []                                # replies on their way: (server socket, client socket, frames)
        self.sent = []                                   # replies handed to zmq, in order
        self.thread_errors = []
        self.queues = []

    def net(self):
        """Body of the thread transferring replies (one at a time)"""
        while True:
            self.s.block(lambda: bool(self.pending), 'network')
            srv, cl, frames = self.pending.pop(0)
            if not cl.closed:
                W.s.progress += 1
                cl.inbox.append(frames)


W = None      # the current world


def _y(label):
    if W.s.dead:
        W.s.yield_(label)
    elif W.s.me() is not None:
        W.s.yield_(label)


def _block(ready, label, timeout=None):
    """Wait for ready() -> False when timed out"""
    if W.s.me() is None:
        raise HarnessError('blocking operation outside a controlled thread: ' + label)
    if timeout is not None and timeout <= 0:
        _y(label)
        return bool(ready())
    ok = W.s.block(ready, label, timed=timeout is not None)
    if not ok:
        W.clock += timeout
    return ok


# ---- threading
class Thread:
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        Thread._count += 1
        self.name = name or 'Thread-%d' % Thread._count
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.daemon = bool(daemon)
        self._t = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._t is not None:
            raise RuntimeError("threads can only be started once")

        def body():
            try:
                self.run()
            except Exception as e:
                W.thread_errors.append((self.name, e))
        self._t = W.s.spawn(self.name, body, daemon=self.daemon)
        _y('thread start')

    def setDaemon(self, d):
        self.daemon = d

    def isDaemon(self):
        return self.daemon

    def getName(self):
        return self.name

    @property
    def ident(self):
        return None if self._t is None else self._t.tid + 1000

    def is_alive(self):
        _y('is_alive')
        return self._t is not None and self._t.state != 'done'

    def join(self, timeout=None):
        if self._t is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._t is W.s.me():
            raise RuntimeError("cannot join current thread")
        _y('join')
        _block(lambda: self._t.state == 'done', 'join ' + self.name, timeout)


class Event:
    def __init__(self):
        self._flag = False

    def is_set(self):
        _y('event is_set')
        return self._flag
    isSet = is_set

    def set(self):
        _y('event set')
        W.s.progress += 1
        self._flag = True

    def clear(self):
        _y('event clear')
        self._flag = False
        W.s.progress += 1

    def wait(self, timeout=None):
        _y('event wait')
        if self._flag:
            return True
        _block(lambda: self._flag, 'event', timeout)
        return self._flag


class Lock:
    def __init__(self):
        self._owner = None
        self._n = 0

    def _free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        _y('lock acquire')
        if not self._free():
            if not blocking:
                return False
            if not _block(self._free, 'lock', None if timeout is None or timeout < 0 else timeout):
                return False
        self._owner = W.s.me() or 'setup'
        self._n += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if not self._n:
            self._owner = None
        _y('lock release')

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        if W.s.dead:
            return
        self.release()


class RLock(Lock):
    def _free(self):
        return self._owner is None or self._owner is (W.s.me() or 'setup')

    def acquire(self, blocking=True, timeout=-1):
        me = W.s.me() or 'setup'
        if self._owner is me:
            self._n += 1
            return True
        return Lock.acquire(self, blocking, timeout)


class Condition:
    def __init__(self, lock=None):
        self._lock = lock or RLock()
        self._waiters = []
        self.acquire, self.release = self._lock.acquire, self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        w = [False]
        self._waiters.append(w)
        n, self._lock._n, self._lock._owner = self._lock._n, 0, None
        ok = _block(lambda: w[0], 'condition', timeout)
        if not ok and w in self._waiters:
            self._waiters.remove(w)
        self._lock.acquire()
        self._lock._n = n
        return bool(ok)

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout):
                return predicate()
        return True

    def notify(self, n=1):
        for w in self._waiters[:n]:
            W.s.progress += 1
            w[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))
    notifyAll = notify_all


class Semaphore:
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        _y('semaphore acquire')
        if self._value <= 0:
            if not blocking or not _block(lambda: self._value > 0, 'semaphore', timeout):
                return False
        self._value -= 1
        return True

    def release(self, n=1):
        W.s.progress += 1
        self._value += n
        _y('semaphore release')

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        if not W.s.dead:
            self.release()


# ---- queue
class Queue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.queue = collections.deque()
        self.unfinished_tasks = 0
        if W is not None:
            W.queues.append(self)

    def _put(self, item):
        self.queue.append(item)

    def _get(self):
        return self.queue.popleft()

    def _room(self):
        return self.maxsize <= 0 or len(self.queue) < self.maxsize

    def qsize(self):
        _y('qsize')
        return len(self.queue)

    def empty(self):
        _y('empty')
        return not self.queue

    def full(self):
        _y('full')
        return not self._room()

    def put(self, item, block=True, timeout=None):
        _y('put')
        if not self._room() and (not block or not _block(self._room, 'queue put', timeout)):
            raise real_queue.Full
        W.s.progress += 1
        self._put(item)
        self.unfinished_tasks += 1

    def get(self, block=True, timeout=None):
        _y('get')
        if not self.queue and (not block or not _block(lambda: bool(self.queue), 'queue get', timeout)):
            raise real_queue.Empty
        W.s.progress += 1
        return self._get()

    def put_nowait(self, item):
        return self.put(item, block=False)

    def get_nowait(self):
        return self.get(block=False)

    def task_done(self):
        _y('task_done')
        if self.unfinished_tasks <= 0:
            raise ValueError('task_done() called too many times')
        W.s.progress += 1
        self.unfinished_tasks -= 1

    def join(self):
        _y('queue join')
        _block(lambda: not self.unfinished_tasks, 'queue join')


class LifoQueue(Queue):
    def _get(self):
        return self.queue.pop()


class PriorityQueue(Queue):
    def _get(self):
        x = min(self.queue)
        self.queue.remove(x)
        return x


# ---- zmq
def _zmq():
    import zmq
    return zmq


def _err(no):
    return _zmq().ZMQError(no)


class Socket:
    def __init__(self, context, kind):
        zmq = _zmq()
        if kind not in (zmq.REP, zmq.REQ):
            raise HarnessError('socket type %s not modelled' % kind)
        self.context, self.TYPE, self.socket_type = context, kind, kind
        self.opts = {zmq.LINGER: context.opts.get(zmq.LINGER, -1), zmq.RCVTIMEO: -1, zmq.SNDTIMEO: -1}
        self.closed = False
        self.port = None
        self.inbox = []
        self.state = 'recv' if kind == zmq.REP else 'send'
        self.peer = None
        context.sockets.append(self)

    # options, in all their spellings
    def setsockopt(self, opt, val):
        self.opts[opt] = val
    set = setsockopt

    def getsockopt(self, opt):
        return self.opts.get(opt, 0)
    get = getsockopt

    def _opt(name):
        def g(self):
            return self.opts.get(getattr(_zmq(), name), -1)

        def s(self, v):
            self.opts[getattr(_zmq(), name)] = v
        return property(g, s)
    linger, LINGER = _opt('LINGER'), _opt('LINGER')
    rcvtimeo, RCVTIMEO = _opt('RCVTIMEO'), _opt('RCVTIMEO')
    sndtimeo, SNDTIMEO = _opt('SNDTIMEO'), _opt('SNDTIMEO')

    def bind(self, addr):
        _y('bind')
        port = addr.rpartition(':')[2]
        if port in W.bound:
            raise _err(errno.EADDRINUSE)
        self.port = port
        W.bound[port] = self
        W.s.progress += 1
        self.inbox += W.waiting.pop(port, [])

    def connect(self, addr):
        self.port = addr.rpartition(':')[2]

    def _check(self):
        if self.closed:
            raise _err(_zmq().ENOTSOCK)

    def _readable(self):
        return self.closed or (bool(self.inbox) and self.state == 'recv')

    def _recv(self, flags):
        zmq = _zmq()
        _y('recv')
        self._check()
        if self.state != 'recv':
            raise _err(zmq.EFSM)
        if not self._readable():
            tmo = self.opts[zmq.RCVTIMEO]
            if flags & zmq.NOBLOCK or not _block(self._readable, 'socket recv', None if tmo < 0 else tmo / 1000):
                raise zmq.Again()
        W.s.progress += 1
        self._check()
        if self.TYPE == zmq.REP:
            self.peer, frames = self.inbox.pop(0)
        else:
            frames = self.inbox.pop(0)
        self.state = 'send'
        return frames

    def recv_multipart(self, flags=0, copy=True, track=False):
        return list(self._recv(flags))

    def recv(self, flags=0, copy=True, track=False):
        frames = self._recv(flags)
        return frames[0]

    def _send(self, frames):
        zmq = _zmq()
        frames = [bytes(zmq.Frame(f).bytes) for f in frames]      # as the real sockets do
        _y('send')
        self._check()
        if self.state != 'send':
            raise _err(zmq.EFSM)
        W.s.progress += 1
        self.state = 'recv'
        if self.TYPE == zmq.REP:
            W.sent.append(frames)
            if not self.peer.closed:
                W.pending.append((self, self.peer, frames))
        else:
            srv = W.bound.get(self.port)
            if srv is not None:
                srv.inbox.append((self, frames))
            else:
                W.waiting[self.port].append((self, frames))

    def send_multipart(self, frames, flags=0, copy=True, track=False, **kw):
        self._send(frames)

    def send(self, data, flags=0, copy=True, track=False, **kw):
        self._send([data])

    def poll(self, timeout=None, flags=1):
        zmq = _zmq()
        _y('poll')
        self._check()

        def ready():
            return bool(flags & zmq.POLLIN and self._readable()) or bool(flags & zmq.POLLOUT and self.state == 'send')
        if not ready():
            if timeout is None or timeout < 0:
                _block(ready, 'poll')
            else:
                _block(ready, 'poll', timeout / 1000)
        out = 0
        if flags & zmq.POLLIN and self._readable():
            out |= zmq.POLLIN
        if flags & zmq.POLLOUT and self.state == 'send':
            out |= zmq.POLLOUT
        return out

    def close(self, linger=None):
        zmq = _zmq()
        if self.closed:
            return
        _y('close')
        if linger is not None:
            self.opts[zmq.LINGER] = linger
        self.closed = True
        if W.bound.get(self.port) is self:
            del W.bound[self.port]
        if self.opts[zmq.LINGER] == 0:
            W.pending = [p for p in W.pending if p[0] is not self]
        self.inbox = []

    def unbind(self, addr):
        W.bound.pop(self.port, None)
    disconnect = unbind

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Context:
    _instance = None

    def __init__(self, io_threads=1, **kw):
        self.sockets = []
        self.opts = {}
        self.closed = False

    @classmethod
    def instance(cls, io_threads=1):
        if cls._instance is None or cls._instance.closed:
            cls._instance = cls()
        return cls._instance

    def socket(self, kind, *a, **kw):
        if self.closed:
            raise _err(errno.EFAULT)
        _y('socket')
        return Socket(self, kind)

    def setsockopt(self, opt, val):
        self.opts[opt] = val

    @property
    def linger(self):
        return self.opts.get(_zmq().LINGER, -1)

    @linger.setter
    def linger(self, v):
        self.opts[_zmq().LINGER] = v

    def destroy(self, linger=None):
        for s in list(self.sockets):
            s.close(linger)
        self.term()

    def term(self):
        _block(lambda: all(s.closed for s in self.sockets) and not any(p[0] in self.sockets for p in W.pending), 'context term')
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.term()


class Poller:
    def __init__(self):
        self.socks = {}

    def register(self, sock, flags=5):
        self.socks[sock] = flags

    def unregister(self, sock):
        self.socks.pop(sock)
    modify = register

    def poll(self, timeout=None):
        zmq = _zmq()
        _y('poll')

        def events():
            out = []
            for s, f in self.socks.items():
                e = (zmq.POLLIN if f & zmq.POLLIN and s._readable() else 0) | (zmq.POLLOUT if f & zmq.POLLOUT and s.state == 'send' else 0)
                if e:
                    out.append((s, e))
            return out
        if not events():
            _block(lambda: bool(events()), 'poll', None if timeout is None or timeout < 0 else timeout / 1000)
        return events()


def _sleep(t):
    _block(lambda: False, 'sleep', max(t, 1e-6))


def _now():
    return W.clock


class _Mod(types.ModuleType):
    def __init__(self, name, real, **over):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__['_real'], name)


def modules():
    import zmq
    th = _Mod('threading', real_threading, Thread=Thread, Event=Event, Lock=Lock, RLock=RLock, Condition=Condition,
              Semaphore=Semaphore, BoundedSemaphore=Semaphore)
    qu = _Mod('queue', real_queue, Queue=Queue, LifoQueue=LifoQueue, PriorityQueue=PriorityQueue, SimpleQueue=Queue)
    ti = _Mod('time', real_time, time=_now, monotonic=_now, perf_counter=_now, sleep=_sleep)
    zm = _Mod('zmq', zmq, Context=Context, Socket=Socket, Poller=Poller)
    return {'threading': th, 'queue': qu, 'time': ti, 'zmq': zm}


def load():
    """Import a private copy of karabo_data.export using the stand-ins"""
    import karabo_data
    import karabo_data.export as orig
    import karabo_bridge                # with the real zmq
    import msgpack_numpy
    mods = modules()
    saved = {k: sys.modules[k] for k in mods if k in sys.modules}
    spec = importlib.util.spec_from_file_location('karabo_data._mc_export', orig.__file__)
    m = importlib.util.module_from_spec(spec)
    sys.modules.update(mods)
    try:
        spec.loader.exec_module(m)
    finally:
        for k in mods:
            sys.modules.pop(k, None)
        sys.modules.update(saved)
    return m
