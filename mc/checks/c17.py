"""C17: streaming trains"""
import os
import socket
import sys
import threading
import time

import numpy as np

from .. import fakes
from ..h5 import build
from ..sched import Sched, explore, Deadlock, StepLimit
from ..space import tids

LEVEL = 'model_checking'
TECHNIQUE = ("stateless model checking of the real code: controlled scheduler over stand-ins for threads, queues and sockets, "
             "exhaustive within a bound on deviations from the default schedule")
RULE = ("the real streaming code runs on stand-ins for threads, events, queues and ZeroMQ sockets whose every operation is a "
        "scheduling point (in some cases also every line of the streaming code); all interleavings of feeder, server, "
        "clients, a stopping thread and the network are enumerated depth first up to a bound on preemptions and early "
        "timeouts. State: distinct (scenario, history of operations); transition: one scheduling step. Real sockets and threads are "
        "used in further cases, to compare with the stand-ins.")
ASSUMPTIONS = ["the ZeroMQ stand-in: REQ/REP in lock step, replies transferred one by one, LINGER=0 discards replies not transferred",
               "arrays are not changed by the caller after feeding them"]
CASE_TIMEOUT = 700
BUDGET = 400      # seconds for one scenario; what is left out then is counted in the evidence
PORT = 45454
BLOCKED = object()


def cases(tier):
    big = tier == 'thorough'
    b = 3 if big else 2
    for n, maxlen in ((1, 1), (2, 1), (3, 1), (3, 2), (4, 3)) if big else ((1, 1), (2, 1), (3, 2)):
        for proto in ('2.2', '1.0'):
            if proto == '1.0' and n > 1 and not big:
                continue
            yield dict(kind='all', n=n, maxlen=maxlen, proto=proto, clients=[n], bound=b)
    yield dict(kind='all', n=3, maxlen=1, proto='2.2', clients=[2, 1], bound=2 if big else 1)
    yield dict(kind='all', n=2, maxlen=2, proto='2.2', clients=[1, 1], bound=2 if big else 1)
    for n, maxlen in ((2, 1), (3, 2), (1, 2)):
        yield dict(kind='stop', n=n, maxlen=maxlen, proto='2.2', clients=1, bound=b)
        yield dict(kind='stop', n=n, maxlen=maxlen, proto='2.2', clients=0, bound=b)
    yield dict(kind='stop', n=0, maxlen=1, proto='2.2', clients=1, bound=b)
    yield dict(kind='stop', n=2, maxlen=1, proto='2.2', clients=2, bound=2 if big else 1)
    yield dict(kind='restart', n=3, maxlen=3, proto='2.2', bound=2 if big else 1)
    yield dict(kind='restart', n=2, maxlen=1, proto='2.2', bound=2 if big else 1)
    for maxlen in (1, 2, 3):
        for reqs in (0, 1, 2):
            yield dict(kind='full', n=maxlen + reqs + 2, maxlen=maxlen, reqs=reqs, proto='2.2', bound=1)
    for maxlen in (1, 2):
        yield dict(kind='late', n=2, maxlen=maxlen, proto='2.2', bound=2 if big or maxlen == 1 else 1)
    for what in ('file', 'run', 'globs', 'gaps'):
        for maxlen in (1, 10):
            yield dict(kind='serve', what=what, maxlen=maxlen, proto='2.2' if maxlen == 1 or big else '1.0', clients=1, bound=2 if big or what == 'file' else 1)
    yield dict(kind='serve', what='run', maxlen=1, proto='2.2', clients=2, bound=2 if big else 1)
    # every line of the code as a scheduling point
    for kind in ('all', 'stop', 'serve'):
        c = dict(kind=kind, n=2, maxlen=1, proto='2.2', clients=[2] if kind == 'all' else 1, bound=1, lines=True)
        if kind == 'serve':
            c['what'] = 'file'
        yield c
    for real in ('serve', 'stop', 'order', 'command', 'package'):
        yield dict(kind='real', real=real, clients=1)
        if big:
            yield dict(kind='real', real=real, clients=2)


# ---- what is fed
def train(i):
    return {'DET/A': {'value': i, 'arr': np.full((2, 2), i, dtype='i4'), 'metadata': {'timestamp.tid': 10000 + i}},
            'B/%d' % i: {'n.value': [i, i + 1], 'arr2': np.arange(i, i + 3, dtype='f4')[::-1]}}


def decode(frames):
    from karabo_bridge import Client

    class F:
        def __init__(self, b):
            self.bytes = self.buffer = b

    class C(Client):
        def __init__(self):
            from functools import partial
            import msgpack
            self.unpack = partial(msgpack.loads, raw=False, max_bin_len=0x7fffffff)
    return C()._deserialize([F(b) for b in frames])


def ident(ctx, frames):
    """The number of the train in a reply, which must be complete and unmixed"""
    if isinstance(frames, str):
        return frames
    try:
        data, meta = decode(frames)
        i = data['DET/A']['value']
        exp = train(i)
    except Exception as e:
        ctx.fail('reply cannot be decoded: %r' % e)
    ctx.check(set(data) == set(exp), 'reply has sources %s, expected %s', sorted(data), sorted(exp))
    if len(frames) > 1:
        ctx.check(np.array_equal(data['DET/A']['arr'], exp['DET/A']['arr']) and np.array_equal(data['B/%d' % i]['arr2'], exp['B/%d' % i]['arr2'])
                  and data['B/%d' % i]['n.value'] == [i, i + 1] and meta['DET/A'].get('timestamp.tid') == 10000 + i,
                  'reply mixes trains: %s', data)
    return i


class Run:
    """One execution of a scenario"""
    def __init__(self, mod, case, prefix, path=None):
        self.case = case
        self.s = Sched(prefix, max_steps=20000)
        self.s.early_timeouts = True
        self.s.delay_bound = True
        self.s.end_with_main = True
        self.s.keep_log = True
        self.w = fakes.W = fakes.World(self.s)
        self.mod = mod
        self.path = path
        self.fed = []
        self.got = {}
        self.stopped = False
        self.left = False       # port still in use when stopped

    def streamer(self):
        return self.mod.ZMQStreamer(PORT, maxlen=self.case['maxlen'], protocol_version=self.case['proto'])

    def feeder(self, st, n, start=0):
        def feed():
            for i in range(start, n):
                st.feed(train(i))
                self.fed.append(i)
        return feed

    def client(self, name, k):
        import zmq
        self.got[name] = []
        ctx = fakes.Context()

        def run():
            c = ctx.socket(zmq.REQ)
            c.connect('tcp://localhost:%d' % PORT)
            self.socks.append(c)
            n = 0
            while k is None or n < k:
                c.send(b'next')
                self.got[name].append(c.recv_multipart())
                n += 1
        return run

    def go(self):
        s, case = self.s, self.case
        self.socks = []
        s.spawn('network', self.w.net, daemon=True)
        s.spawn('main', getattr(self, 'main_' + case['kind']))
        s.on_step = None
        if case.get('lines'):
            self.trace()
        try:
            s.run()
        finally:
            threading.settrace(None)
        return s

    def trace(self):
        """Yield at every line of the streaming code"""
        fn = self.mod.__file__
        s = self.s

        def local(frame, event, arg):
            if event == 'line' and s.me() is not None and not s.dead:
                s.yield_('line')
            return local

        def tr(frame, event, arg):
            return local if frame.f_code.co_filename == fn and frame.f_code.co_name != '_serialize' else None
        self.tracer = tr
        orig = s.spawn

        def spawn(name, fn, daemon=False):
            def body():
                sys.settrace(tr)
                try:
                    return fn()
                finally:
                    sys.settrace(None)
            return orig(name, body, daemon)
        s.spawn = spawn
        for t in s.threads:
            f = t.fn

            def body(f=f):
                sys.settrace(tr)
                try:
                    return f()
                finally:
                    sys.settrace(None)
            t.fn = body

    def wait(self, t):
        self.s.yield_('wait')
        if t.state != 'done':
            self.s.block(lambda: t.state == 'done', 'end of ' + t.name)
        if t.exc:
            raise t.exc

    def main_all(self):
        st = self.streamer()
        st.start()
        ths = [self.s.spawn('feeder', self.feeder(st, self.case['n']))]
        ths += [self.s.spawn('client%d' % i, self.client('client%d' % i, k)) for i, k in enumerate(self.case['clients'])]
        for t in ths:
            self.wait(t)
        st.stop()
        self.left = str(PORT) in self.w.bound
        self.stopped = True

    def main_stop(self):
        st = self.streamer()
        st.start()
        self.s.spawn('feeder', self.feeder(st, self.case['n']), daemon=True)
        for i in range(self.case['clients']):
            self.s.spawn('client%d' % i, self.client('client%d' % i, None), daemon=True)
        # let the others go on before stopping, as far as they can
        for i in range(4):
            self.s.yield_('before stop')
        st.stop()
        self.left = str(PORT) in self.w.bound
        self.stopped = True

    def main_restart(self):
        st = self.streamer()
        n = self.case['n']
        st.start()
        f = self.s.spawn('feeder', self.feeder(st, n))
        self.s.spawn('client0', self.client('client0', None), daemon=True)
        self.s.yield_('before stop')
        st.stop()
        st.start()
        self.s.spawn('client1', self.client('client1', None), daemon=True)
        self.wait(f)
        self.s.block(lambda: len(self.w.sent) >= n, 'all trains sent')
        st.stop()
        self.left = str(PORT) in self.w.bound
        self.stopped = True

    def main_full(self):
        st = self.streamer()
        st.start()
        self.feeder_t = self.s.spawn('feeder', self.feeder(st, self.case['n']))
        self.s.spawn('client0', self.client('client0', self.case['reqs']))

    def main_late(self):
        st = self.streamer()
        n = self.case['n']
        self.feeder(st, min(n, self.case['maxlen']))()
        st.start()
        f = self.s.spawn('feeder', self.feeder(st, n, min(n, self.case['maxlen'])))
        c = self.s.spawn('client0', self.client('client0', n))
        self.wait(f)
        self.wait(c)
        st.stop()
        self.left = str(PORT) in self.w.bound
        self.stopped = True

    def main_serve(self):
        kw = {}
        if self.case['what'] == 'globs':
            kw = dict(source_glob='SA1/X*', key_glob='p.*')
        for i in range(self.case['clients']):
            # clients which keep asking
            self.s.spawn('client%d' % i, self.client('client%d' % i, None), daemon=True)
        self.mod.serve_files(self.path, PORT, maxlen=self.case['maxlen'], protocol_version=self.case['proto'], **kw)
        self.left = str(PORT) in self.w.bound
        self.stopped = True


def serve_data(what, ctx):
    d = ctx.dir()
    t = tids('g', 3)
    c = lambda counts: {'': [counts, {'p.value': ['f8', []], 'q.value': ['i4', [2]]}]}
    i = lambda counts: {'data': [counts, {'data.x': ['f4', [2]], 'data.trainId': ['u8', []]}]}
    specs = [dict(name='RAW-R0001-DA01-S00000.h5', trains=t[:2], src=[['SA1/X/1', 'C', c([1, 1])], ['SA1/D/2:out', 'I', i([2, 0])]]),
             dict(name='RAW-R0001-DA01-S00001.h5', trains=t[2:], src=[['SA1/X/1', 'C', c([1])], ['SA1/D/2:out', 'I', i([1])]])]
    if what == 'file':
        specs = [dict(specs[0], trains=t, src=[['SA1/X/1', 'C', c([1] * 3)], ['SA1/D/2:out', 'I', i([1, 0, 3])]])]
    if what == 'gaps':
        # a train for which nothing was recorded
        specs = [dict(name='RAW-R0001-DA01-S00000.h5', trains=t, src=[['SA1/D/2:out', 'I', i([1, 0, 3])]])]
    build(d, specs)
    path = os.path.join(d, 'RAW-R0001-DA01-S00000.h5') if what in ('file', 'gaps') else d
    import karabo_data as kd
    coll = kd.H5File(path) if what in ('file', 'gaps') else kd.RunDirectory(path)
    if what == 'globs':
        coll = coll.select('SA1/X*', 'p.*')
    exp = [(int(tid), data) for tid, data in coll.trains() if data]
    return path, exp


def check_serve(ctx, frames, exp, what):
    ctx.check(len(frames) == len(exp), '%s: %d replies for %d trains', what, len(frames), len(exp))
    check_decoded(ctx, [decode(fr) for fr in frames], exp, what)


def check_decoded(ctx, received, exp, what):
    ctx.check(len(received) == len(exp), '%s: %d replies for %d trains', what, len(received), len(exp))
    for (got, meta), (tid, data) in zip(received, exp):
        ctx.check(set(got) == set(data), '%s: train %s has sources %s, expected %s', what, tid, sorted(got), sorted(data))
        for s in data:
            ctx.check(int(meta[s]['timestamp.tid']) == tid, '%s: train %s sent as %s', what, tid, meta[s])
            ctx.check(set(got[s]) == set(data[s]), '%s: keys %s, expected %s', what, sorted(got[s]), sorted(data[s]))
            for k in data[s]:
                if k != 'metadata':
                    ctx.check(np.array_equal(got[s][k], data[s][k]), '%s: %s %s of train %s: %s', what, s, k, tid, got[s][k])


def run_case(case, ctx):
    ctx.sample(case)
    if case['kind'] == 'real':
        return real(case, ctx)
    mod = fakes.load()
    path = exp = None
    if case['kind'] == 'serve':
        path, exp = serve_data(case['what'], ctx)
    runs = []
    cache = {}
    if exp is not None:
        # reading the data again for every interleaving would be wasteful
        cls = type('Served', (), dict(trains=lambda self: iter(exp), select=lambda self, *a: self))
        if case['what'] != 'globs':
            mod.RunDirectory = mod.H5File = lambda *a: cls()

    def run(prefix):
        r = Run(mod, case, prefix, path)
        runs[:] = [r]
        return r.go()
    end = time.monotonic() + BUDGET
    for s in explore(run, case['bound']):
        r = runs[0]
        if time.monotonic() > end:
            ctx.count('scenarios cut short')
            return
        ctx.trace()
        ctx.step(s.steps)
        ctx.state(str(case), tuple(s.log))
        judge(ctx, case, s, r, exp)


def judge(ctx, case, s, r, exp):
    kind = case['kind']
    hist = 'schedule %s' % [c[0] for c in s.choices]
    ctx.check(not r.left, '%s: the port is still in use when %s returns', hist, 'serve_files' if kind == 'serve' else 'stop()')
    w = r.w
    for t in s.threads:
        if t.exc is not None and not t.daemon:
            raise t.exc
        ctx.check(t.exc is None, '%s failed: %r (%s)', t.name, t.exc, hist)
    ctx.check(not w.thread_errors, 'server thread failed: %r (%s)', w.thread_errors, hist)
    if kind == 'full':
        full(ctx, case, s, r, hist)
    else:
        ctx.check(not isinstance(s.problem, (Deadlock, StepLimit)), '%s: %s; fed %s, sent %d (%s)', kind, s.problem, r.fed, len(w.sent), hist)
        ctx.check(s.problem is None, '%r', s.problem)
        ctx.check(r.stopped, 'main thread did not end (%s): %s', hist, s.problem)
    # every reply sent is received, or on its way
    got = {c: list(v) for c, v in r.got.items()}
    for sock in r.socks:
        pass
    inflight = [p[2] for p in w.pending] + [f for sock in r.socks for f in sock.inbox]
    received = [f for v in got.values() for f in v]
    ctx.check(len(received) + len(inflight) == len(w.sent), 'of %d replies sent, %d were received and %d are on their way: others got lost (%s)',
              len(w.sent), len(received), len(inflight), hist)
    if exp is not None:
        ctx.check(not any(p for p in w.queues if p.queue), 'trains left in the queue (%s)', hist)
        check_serve(ctx, w.sent, exp, 'served data')
        return
    ids = [ident(ctx, f) for f in w.sent]
    ctx.check(ids == list(range(len(ids))), 'trains sent: %s (%s)', ids, hist)
    for c, v in got.items():
        i = [ident(ctx, f) for f in v]
        ctx.check(i == sorted(set(i)), '%s received trains %s (%s)', c, i, hist)
    if kind in ('all', 'late', 'restart'):
        ctx.check(len(ids) == case['n'], 'only trains %s of %d were sent (%s)', ids, case['n'], hist)
    if kind in ('all', 'late'):
        ctx.check(sorted(ident(ctx, f) for f in received) == ids, 'received %s (%s)', received, hist)


def full(ctx, case, s, r, hist):
    """Feeding goes on until the buffer is full, and no further"""
    ctx.check(isinstance(s.problem, Deadlock), 'feeding %d trains with maxlen %d and %d requests does not block: %r (%s)', case['n'],
              case['maxlen'], case['reqs'], s.problem, hist)
    want = case['maxlen'] + case['reqs']
    ctx.check(len(r.fed) == want, 'feeding blocks after %d trains, expected %d (maxlen %d, %d requests; %s)', len(r.fed), want,
              case['maxlen'], case['reqs'], hist)
    ctx.check(len(r.w.sent) == case['reqs'], '%d replies to %d requests (%s)', len(r.w.sent), case['reqs'], hist)


# ---- real sockets and threads
def check_free(ctx, port, what):
    """Nothing serves any more"""
    end = time.monotonic() + 30
    while True:
        with socket.socket() as k:
            k.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                k.bind(('', port))
                k.listen()
                return
            except OSError as e:
                if time.monotonic() > end:
                    ctx.fail('%s: the port is still in use: %s' % (what, e))
        time.sleep(.1)


def free_port():
    with socket.socket() as s:
        s.bind(('127.0.0.1', 0))
        return s.getsockname()[1]


def in_time(ctx, f, what, limit=90):
    res = []

    def body():
        try:
            res.append(('ok', f()))
        except BaseException as e:
            res.append(('error', e))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(limit)
    ctx.check(res, '%s did not end within %d s', what, limit)
    if res[0][0] == 'error':
        raise res[0][1]
    return res[0][1]


def real(case, ctx):
    import zmq
    from karabo_bridge import Client
    from karabo_data import export
    port = free_port()
    kind = case['real']
    got = []

    def client(k, out):
        c = Client('tcp://127.0.0.1:%d' % port, timeout=80)
        try:
            while k is None or len(out) < k:
                out.append(c.next())
        except Exception as e:
            if k is not None:
                out.append(e)
        finally:
            c._context.destroy(linger=0)
    if kind == 'order':
        st = export.ZMQStreamer(port, maxlen=2)
        st.start()
        n = 12
        feeder = threading.Thread(target=lambda: [st.feed(train(i)) for i in range(n)], daemon=True)
        feeder.start()
        in_time(ctx, lambda: client(n, got), 'client')
        ctx.check([g[0]['DET/A']['value'] for g in got] == list(range(n)), 'received %s', got)
        in_time(ctx, feeder.join, 'feeding')
        in_time(ctx, st.stop, 'stop()')
        check_free(ctx, port, 'stop()')
    elif kind in ('command', 'package'):
        # the command, and the names exported by the package
        import karabo_data as kd
        for what in ('file', 'run', 'globs', 'gaps'):
            path, exp = serve_data(what, ctx)
            for proto in ('2.2',) if kind == 'command' else ('1.0', '2.2'):
                port = free_port()
                out = []
                th = threading.Thread(target=client, args=(len(exp), out), daemon=True)
                th.start()
                if kind == 'command':
                    args = ['--source', 'SA1/X*', '--key', 'p.*'] if what == 'globs' else []
                    call = lambda: export.main([path, str(port)] + args)
                else:
                    args = ['SA1/X*', 'p.*'] if what == 'globs' else []
                    call = lambda: kd.serve_files(path, port, *args, protocol_version=proto, maxlen=1)
                in_time(ctx, call, '%s %s' % (kind, what))
                in_time(ctx, th.join, 'client')
                ctx.check(not any(isinstance(g, Exception) for g in out), '%s %s: client failed: %s', kind, what, out)
                check_decoded(ctx, out, exp, '%s %s %s' % (kind, what, proto))
                check_free(ctx, port, '%s %s' % (kind, what))
                ctx.trace()
        if kind == 'package':
            port = free_port()
            st = kd.ZMQStreamer(port, maxlen=1, protocol_version='1.0', dummy_timestamps=True)
            st.start()
            th = threading.Thread(target=client, args=(2, got), daemon=True)
            th.start()
            for i in range(2):
                in_time(ctx, lambda: st.feed(train(i)), 'feed()')
            in_time(ctx, th.join, 'client')
            in_time(ctx, st.stop, 'stop()')
            ctx.check([g[0]['DET/A']['value'] for g in got] == [0, 1], 'received %s', got)
            ctx.check(all('timestamp' in g[1]['B/%d' % i] for i, g in enumerate(got)), 'no time stamps in %s', got)
    elif kind == 'stop':
        for setup in ('idle', 'waiting', 'fed', 'full'):
            port = free_port()
            st = export.ZMQStreamer(port, maxlen=2)
            st.start()
            if setup == 'waiting':
                threading.Thread(target=client, args=(None, []), daemon=True).start()
                time.sleep(0.5)
            if setup in ('fed', 'full'):
                for i in range(1 if setup == 'fed' else 2):
                    st.feed(train(i))
            in_time(ctx, st.stop, 'stop() (%s)' % setup, 60)
            if setup != 'waiting':
                check_free(ctx, port, 'stop() (%s)' % setup)
            ctx.trace()
    else:
        # several trains, large enough to take some time to transfer
        big = np.arange(3000000, dtype='f8')
        d = ctx.dir()
        import h5py
        t = tids('c', 3)
        build(d, [dict(name='RAW-R0001-DA01-S00000.h5', trains=t,
                       src=[['SA1/D/2:out', 'I', {'data': [[1] * 3, {'data.x': ['f8', [2000000]]}]}]])])
        th = threading.Thread(target=client, args=(3, got), daemon=True)
        th.start()
        in_time(ctx, lambda: export.serve_files(d, port), 'serve_files()')
        in_time(ctx, th.join, 'client')
        ctx.check(not any(isinstance(g, Exception) for g in got), 'client failed: %s', got)
        ctx.check([g[1]['SA1/D/2:out']['timestamp.tid'] for g in got] == t, 'trains received: %s', [g[1] for g in got])
    ctx.step()
    ctx.trace()
    ctx.state(str(case))
