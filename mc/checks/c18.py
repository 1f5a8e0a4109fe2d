"""C18: streamed messages"""
import copy
import itertools
import threading

import numpy as np

from .. import fakes
from ..sched import Sched

LEVEL = 'model_checking'
RULE = ("the complete product of value menus (python and numpy scalars of every width at their limits, strings, bytes, lists, "
        "arrays of every dtype x shape x memory layout), protocol versions, ways of giving metadata (in the data, explicit, for "
        "some sources, for unknown sources) and dummy timestamps; every message fed through the streaming code and decoded by the "
        "bridge client. Encoding is done both with plain msgpack and with msgpack patched for numpy (as importing the "
        "client does). State: distinct (value, protocol, metadata); transition: one train fed and decoded.")
ASSUMPTIONS = ["arrays of Python objects and dates are left out; complex numbers only in arrays", "tuples arrive as lists"]
PORT = 45460

DTYPES = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f2', 'f4', 'f8', 'c8', 'c16', '?', '>f4', '>i2', '>u8', 'S3', 'U2', '>U2']
SHAPES = [(), (0,), (1,), (4,), (0, 3), (3, 0), (2, 3), (1, 1), (2, 3, 4), (1, 3, 1, 2)]
LAYOUTS = ['C', 'F', 'rev', 'step', 'T', 'bcast', 'offset', 'ro', 'revlast', 'noncontig2']


def array(dtype, shape, layout):
    n = int(np.prod(shape))
    dt = np.dtype(dtype)

    def fill(sh):
        m = int(np.prod(sh))
        v = np.arange(1, m + 1)
        if dt.kind == 'b':
            a = v % 3 == 0
        elif dt.kind == 'S':
            a = np.array([(b'a%d' % (x % 90)) for x in v] or [b''], dtype=dt)[:m]
        elif dt.kind == 'U':
            a = np.array([u'é%d' % (x % 9) for x in v] or [''], dtype=dt)[:m]
        elif dt.kind == 'c':
            a = (v * (1 - 2j)).astype(dt)
        elif dt.kind == 'f':
            a = (v * 1.25 - 3).astype(dt)
            if m > 1:
                a[0], a[-1] = np.nan, -np.inf
        else:
            a = v.astype(dt)
            if m > 1:
                a[0], a[-1] = np.iinfo(dt).max, np.iinfo(dt).min
        return a.astype(dt).reshape(sh)
    if layout == 'C':
        return fill(shape)
    if layout == 'F':
        return np.asfortranarray(fill(shape)) if shape else fill(shape)
    if layout == 'rev':
        return fill(shape)[::-1] if shape else None
    if layout == 'revlast':
        return fill(shape)[..., ::-1] if len(shape) > 1 else None
    if layout == 'step':
        return fill((shape[0] * 2,) + shape[1:])[::2] if shape else None
    if layout == 'noncontig2':
        return fill(shape[:-1] + (shape[-1] + 2,))[..., 1:-1] if shape else None
    if layout == 'T':
        return fill(shape[::-1]).T if len(shape) > 1 else None
    if layout == 'bcast':
        return np.broadcast_to(fill(shape[1:]), shape) if shape else None
    if layout == 'offset':
        return fill((shape[0] + 1,) + shape[1:])[1:] if shape else None
    if layout == 'ro':
        a = fill(shape)
        a.flags.writeable = False
        return a


def scalars():
    out = [0, 1, -1, 127, -128, 255, 256, 65535, -32769, 2 ** 31, -2 ** 31 - 1, 2 ** 63, 2 ** 64 - 1, -2 ** 63, 0.0, -1.5, 1e300, float('nan'),
           float('inf'), True, False, None, '', 'abc', 'é中', 'x' * 300, b'', b'ab\xff', b'y' * 70000, [], [1, 2, 3], [1.5, 'a', None],
           [[1, 2], [3]], (1, 2), ['a', 'bc', 'd'], list(range(40)), {'a': 1, 'b': [2]}]
    for dt in ('i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8'):
        t = np.dtype(dt).type
        out += [t(np.iinfo(dt).max), t(np.iinfo(dt).min), t(1)]
    for dt in ('f2', 'f4', 'f8'):
        t = np.dtype(dt).type
        out += [t(0.1), t(np.nan), t(-np.inf), t(0)]
    out += [np.bool_(True), np.bool_(False), np.str_('é'), np.bytes_(b'q\x00r')]
    return out


META = ['none', 'indata', 'explicit', 'both', 'partial', 'partial+data', 'extra', 'empty', 'ts', 'ts-explicit']


def cases(tier):
    big = tier == 'thorough'
    n = 0
    for patched in (False, True):
        for proto in ('2.2', '1.0'):
            for dt in DTYPES:
                yield dict(kind='arrays', dtype=dt, proto=proto, patched=patched)
            yield dict(kind='scalars', proto=proto, patched=patched)
            for dummy in (False, True):
                yield dict(kind='meta', proto=proto, patched=patched, dummy=dummy)
            yield dict(kind='several', proto=proto, patched=patched)
    for proto in ('2.2', '1.0'):
        yield dict(kind='real', proto=proto, patched=False)
    yield dict(kind='refused')


_orig = {}


def setup_worker():
    import msgpack
    names = ['Packer', 'Unpacker', 'load', 'loads', 'dump', 'dumps', 'pack', 'packb', 'unpack', 'unpackb']
    _orig['plain'] = {k: getattr(msgpack, k) for k in names}
    import karabo_bridge
    _orig['patched'] = {k: getattr(msgpack, k) for k in names}


class msgpack_as:
    def __init__(self, which):
        self.which = which

    def _set(self, which):
        import msgpack
        for k, v in _orig[which].items():
            setattr(msgpack, k, v)

    def __enter__(self):
        self._set(self.which)

    def __exit__(self, *a):
        self._set('patched')


def stream(ctx, items, case, dummy=False):
    """Feed (data, metadata) pairs and return the replies, or the exception for each"""
    import zmq
    mod = fakes.load()
    s = Sched((), max_steps=10 ** 6)
    s.end_with_main = True
    w = fakes.W = fakes.World(s)
    w.clock = __import__('time').time()
    errors = []
    got = []

    def main():
        with msgpack_as('patched' if case['patched'] else 'plain'):
            st = mod.ZMQStreamer(PORT, maxlen=len(items) + 1, protocol_version=case['proto'], dummy_timestamps=dummy)
            st.start()
            for data, meta in items:
                w.clock += 1.125
                try:
                    st.feed(data) if meta is None else st.feed(data, meta)
                    errors.append(None)
                except Exception as e:
                    errors.append(e)
        c = fakes.Context().socket(zmq.REQ)
        c.connect('tcp://x:%d' % PORT)
        for e in errors:
            if e is None:
                c.send(b'next')
                got.append(c.recv_multipart())
            else:
                got.append(e)
        st.stop()
    s.spawn('network', w.net, daemon=True)
    t = s.spawn('main', main)
    t0 = w.clock
    s.run()
    if t.exc:
        raise t.exc
    ctx.check(not w.thread_errors, 'server failed: %s', w.thread_errors)
    ctx.check(s.problem is None, 'streaming: %r', s.problem)
    return got, t0, w.clock


def decode(frames):
    from .c17 import decode as d
    return d(frames)


def equal(got, exp):
    """Is got what exp should arrive as?"""
    if isinstance(exp, np.ndarray):
        return isinstance(got, np.ndarray) and got.dtype == exp.dtype and got.shape == exp.shape and \
            bool(np.all((got == exp) | ((got != got) & (exp != exp))))
    if isinstance(exp, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(got) == len(exp) and all(equal(g, e) for g, e in zip(got, exp))
    if isinstance(exp, dict):
        return isinstance(got, dict) and set(got) == set(exp) and all(equal(got[k], exp[k]) for k in exp)
    if exp is None:
        return got is None
    if isinstance(exp, (str, bytes)):
        return isinstance(got, type(exp) if not isinstance(exp, np.generic) else (str, bytes)) and got == exp
    if isinstance(exp, (bool, np.bool_)):
        return isinstance(got, (bool, np.bool_)) and bool(got) == bool(exp)
    kind = 'f' if isinstance(exp, (float, np.floating)) else 'i'
    if isinstance(got, (bool, np.bool_)):
        return False
    if kind == 'f':
        return isinstance(got, (float, np.floating)) and (got == exp or (got != got and exp != exp))
    return isinstance(got, (int, np.integer)) and int(got) == int(exp)


def snapshot(x):
    return copy.deepcopy(x)


def same_objects(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same_objects(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same_objects(x, y) for x, y in zip(a, b))
    return equal(a, b) and type(a) == type(b)


def judge(ctx, frames, data, exp_meta, what, dummy=None):
    ctx.check(not isinstance(frames, Exception), '%s: feeding failed: %r', what, frames)
    try:
        got, meta = decode(frames)
    except Exception as e:
        ctx.fail('%s: cannot be decoded: %r' % (what, e))
    ctx.check(set(got) == set(data), '%s: sources %s, expected %s', what, sorted(got), sorted(data))
    for src in data:
        g = {k: v for k, v in got[src].items() if k != 'metadata'}
        e = {k: v for k, v in data[src].items() if k != 'metadata'}
        ctx.check(set(g) == set(e), '%s: %s has keys %s, expected %s', what, src, sorted(g), sorted(e))
        for k in e:
            ctx.check(equal(g[k], e[k]), '%s: %s %s arrived as %r, fed %r', what, src, k, g[k], e[k])
    ctx.check(set(meta) == set(data), '%s: metadata for %s', what, sorted(meta))
    for src in data:
        m = dict(meta[src])
        if dummy and 'timestamp' not in exp_meta[src]:
            t0, t1 = dummy
            ts = m.pop('timestamp', None)
            sec, frac = m.pop('timestamp.sec', None), m.pop('timestamp.frac', None)
            ctx.check(isinstance(ts, float) and t0 <= ts <= t1, '%s: dummy timestamp %r', what, ts)
            ctx.check(isinstance(sec, str) and isinstance(frac, str) and sec == str(int(ts)) and len(frac) == 18 and
                      frac.isdigit() and abs(float('0.' + frac) - (ts - int(ts))) < 1e-5, '%s: dummy timestamp %r: %r, %r', what, ts, sec, frac)
        ctx.check(equal(m, exp_meta[src]), '%s: metadata of %s is %r, expected %r', what, src, m, exp_meta[src])


def run_items(ctx, case, items, dummy=False):
    """items: (label, data, metadata argument, expected metadata)"""
    before = [(snapshot(d), snapshot(m)) for _, d, m, _ in items]
    got, t0, t1 = stream(ctx, [(d, m) for _, d, m, _ in items], case, dummy)
    for (label, data, marg, em), frames, (bd, bm) in zip(items, got, before):
        what = 'protocol %s: %s' % (case['proto'], label)
        ctx.step()
        ctx.trace()
        ctx.state(str(case), label)
        judge(ctx, frames, bd, em, what, (t0, t1) if dummy else None)
        # in the form of the protocol version asked for
        if case['proto'] == '1.0':
            ctx.check(len(frames) == 1, '%s: message of %d parts', what, len(frames))
        else:
            n = [1 + sum(isinstance(v, np.ndarray) for v in props.values()) for props in bd.values()]
            ctx.check(len(frames) == 2 * sum(n), '%s: message of %d parts, expected %d', what, len(frames), 2 * sum(n))
        ctx.check(same_objects(bd, data), '%s: data was changed to %r', what, data)
        ctx.check(same_objects(bm, marg), '%s: metadata was changed to %r', what, marg)


def array_items(dt):
    items = []
    for shape in SHAPES:
        for lay in LAYOUTS:
            a = array(dt, shape, lay)
            if a is not None:
                items.append(('array %s %s %s' % (dt, shape, lay), {'S/A': {'k.x': a}}, None, {'S/A': {}}))
    return items


def scalar_items(case):
    items = []
    for v in scalars():
        if case['proto'] == '1.0' and isinstance(v, np.generic) and case['patched'] is None:
            continue
        items.append(('value %r (%s)' % (v if not isinstance(v, (str, bytes, list)) else v[:10], type(v).__name__), {'S/A': {'k': v}}, None, {'S/A': {}}))
    return items


def run_case(case, ctx):
    ctx.sample(case)
    globals()['do_' + case['kind']](case, ctx)


def do_arrays(case, ctx):
    run_items(ctx, case, array_items(case['dtype']))


def do_scalars(case, ctx):
    run_items(ctx, case, scalar_items(case))


def do_several(case, ctx):
    """Several sources with several values and arrays, in different orders"""
    vals = {'a.v': 5, 'b.arr': array('f4', (2, 3), 'T'), 'c.arr': array('u2', (4,), 'C'), 'd.s': 'text', 'e.arr': array('u2', (4,), 'rev')}
    srcs = ['Z/1', 'A/2', 'A/10']
    items = []
    for n in range(1, 4):
        for ss in itertools.permutations(srcs, n):
            for i, ks in enumerate(itertools.permutations(sorted(vals))):
                if (i + n) % 7:
                    continue
                data = {s: {k: (vals[k] if not isinstance(vals[k], np.ndarray) else vals[k] + j) for k in ks[j:]} for j, s in enumerate(ss)}
                items.append(('sources %s keys %s' % (ss, ks), data, None, {s: {} for s in ss}))
    for k in range(1, 4):
        # arrays only; nothing at all
        items.append(('%d arrays' % k, {'X': {'a%d' % i: array('i4', (i + 1,), 'C') for i in range(k)}}, None, {'X': {}}))
    items.append(('empty source', {'X': {}, 'Y': {'a': 1}}, None, {'X': {}, 'Y': {}}))
    run_items(ctx, case, items)


def do_meta(case, ctx):
    items = []
    m = lambda s, i: {'source': s, 'timestamp.tid': 9876543210 + i, 'note': 'x%d' % i}
    ts = {'timestamp': 12.5, 'timestamp.sec': '12', 'timestamp.frac': '500000000000000000'}
    for nsrc in (1, 2, 3):
        srcs = ['S/%d' % i for i in range(nsrc)]
        for how in META:
            for which in itertools.product((0, 1), repeat=nsrc):
                data = {s: {'v': i, 'arr': np.arange(i + 1)} for i, s in enumerate(srcs)}
                marg = None
                exp = {s: {} for s in srcs}
                for i, s in enumerate(srcs):
                    if how in ('indata', 'both', 'partial+data', 'extra', 'empty') and which[i]:
                        data[s]['metadata'] = m(s, i)
                        exp[s] = m(s, i)
                    if how == 'ts':
                        data[s]['metadata'] = dict(m(s, i), **(ts if which[i] else {}))
                        exp[s] = dict(data[s]['metadata'])
                if how in ('explicit', 'both', 'extra', 'ts-explicit'):
                    marg = {s: m(s, i + 5) for i, s in enumerate(srcs)}
                    if how == 'ts-explicit':
                        for i, s in enumerate(srcs):
                            if which[i]:
                                marg[s].update(ts)
                    exp = snapshot(marg)
                    if how == 'extra':
                        marg['Q/UNKNOWN'] = m('Q', 1)
                elif how in ('partial', 'partial+data'):
                    marg = {s: m(s, i + 5) for i, s in enumerate(srcs) if not which[i]}
                    for s in marg:
                        exp[s] = snapshot(marg[s])
                elif how == 'empty':
                    marg = {}
                items.append(('metadata %s %s' % (how, which), data, marg, exp))
    run_items(ctx, case, items, case['dummy'])
    # the same dictionaries fed again
    data = {'S/0': {'v': 1, 'metadata': m('S/0', 0)}, 'S/1': {'v': 2}}
    shared = {'S/0': m('S/0', 3), 'S/1': m('S/0', 4)}
    items = []
    for i in range(3):
        items.append(('repeated %d' % i, data, None, {'S/0': m('S/0', 0), 'S/1': {}}))
        items.append(('repeated explicit %d' % i, data, shared, snapshot(shared)))
    run_items(ctx, case, items, case['dummy'])


def do_real(case, ctx):
    """Everything through real sockets"""
    from .c17 import free_port, in_time
    from karabo_bridge import Client
    from karabo_data import export
    items = [i for dt in DTYPES for i in array_items(dt)] + scalar_items(case)
    for attempt in range(4):
        port = free_port()
        with msgpack_as('plain'):
            st = export.ZMQStreamer(port, maxlen=len(items), protocol_version=case['proto'])
        st.start()
        for _, data, _, _ in items:
            st.feed(data)
        c = Client('tcp://127.0.0.1:%d' % port, timeout=20)
        try:
            first = c.next()
            break
        except TimeoutError:        # someone else had the port?
            if attempt == 3:
                raise
    replies = [first] + [c.next() for _ in items[1:]]
    for (label, data, _, _), (got, meta) in zip(items, replies):
        ctx.step()
        ctx.trace()
        ctx.state(str(case), label)
        ctx.check(equal(got, data), 'real sockets, protocol %s: %s arrived as %r', case['proto'], label, got)
    c._context.destroy(linger=0)
    in_time(ctx, st.stop, 'stop()')


def do_refused(case, ctx):
    from karabo_data import export
    for v in ('1.1', '2.1', '', '3', None, 2.2):
        try:
            export.ZMQStreamer(PORT, protocol_version=v)
        except ValueError:
            ctx.step()
            ctx.state(v)
        else:
            ctx.fail('protocol version %r accepted' % (v,))
