"""C23: threads sharing one collection"""
import itertools
import os

import numpy as np

from .. import observe as ob
from ..core import Violation
from ..det import make_getval
from ..h5 import build, Coll, FileModel, same, brief
from ..linesched import LineSched, LineTracer, Lock, install_locks
from ..sched import explore
from ..space import *

LEVEL = 'model_checking'
TECHNIQUE = ("stateless model checking of the real code: controlled scheduler switching threads at source lines, exhaustive "
             "within a preemption bound, results compared with a reference model")
RULE = ("two threads (three in some cases) use the same cold collection, a collection and one derived from it, the same "
        "detector object or geometry; every pair of operations, either thread starting; all schedules with at most 1 preemption, for pairs of short operations 2 "
        "(thorough: 2, some 3), where threads may switch at every source line of karabo_data (in loops, the first 2 "
        "executions of each line). State: distinct (pair, schedule); transition: a step from one such line to the next.")
ASSUMPTIONS = ["the CPython bytecodes of one source line, and calls of h5py, numpy and pandas, are not interrupted",
               "files are not closed while threads read"]
CASE_TIMEOUT = 600

DET = 'SPB_DET_AGIPD1M-1/DET/%dCH0:xtdf'
KD = {'image.data': ['u2', [2, 2]], 'image.pulseId': ['u8', []], 'image.cellId': ['u2', []]}
KX = {'data.v': ['i4', [2]]}
KC = {'p.value': ['f8', []], 'q.value': ['u2', []]}
T = [10000, 10001, 10003]
GETVAL = make_getval('same')
SPECS = [
    dict(name='RAW-R0001-DA01-S00000.h5', trains=T[:2], src=[[INSTA, 'I', {'data': [[1, 2], KX]}], [CTRL, 'C', {'': [None, KC]}]]),
    dict(name='RAW-R0001-DA01-S00001.h5', trains=T[2:], src=[[INSTA, 'I', {'data': [[1], KX]}], [CTRL, 'C', {'': [None, KC]}]], pad=[0, 0, 2, 0]),
]
DET_SPECS = [
    SPECS[0],
    dict(name='RAW-R0001-AGIPD00-S00000.h5', trains=T[:2], src=[[DET % 0, 'I', {'image': [[2, 2], KD]}]]),
    dict(name='RAW-R0001-AGIPD01-S00000.h5', trains=T[:2], src=[[DET % 1, 'I', {'image': [[2, 2], KD]}]]),
]
SMALL = ['byid', 'keys', 'counts', 'array', 'select']
OPS = SMALL + ['iter', 'series', 'frame', 'dask', 'deselect', 'strains', 'union', 'dinfo', 'virtual', 'write']
DOPS = ['dinfo', 'darray', 'dkey', 'dpulse', 'byid', 'diter']
MICRO = ['key1', 'count1', 'train1']
GOPS = ['position', 'outarray', 'pixels', 'todata']


def cases(tier):
    big = tier == 'thorough'
    for w, a, b in [('run', 'count1', 'train1'), ('run', 'train1', 'train1'), ('nocache', 'train1', 'train1'), ('run', 'key1', 'count1'),
                    ('run', 'key1', 'train1'), ('nocache', 'key1', 'key1')]:
        yield dict(world=w, ops=[a, b], bound=2)
    if big:
        for w, a, b in itertools.product(('run', 'nocache', 'derived'), MICRO, MICRO):
            yield dict(world=w, ops=[a, b], bound=3 if 'key1' in (a, b) else 2)
    for w in ('run', 'derived', 'nocache'):
        for a, b in itertools.product(OPS, repeat=2):
            if w != 'derived' and OPS.index(a) > OPS.index(b):
                continue       # the same but for the names of the threads
            if 'write' in (a, b) and w == 'derived' or 'dinfo' in (a, b) and w != 'det':
                continue
            if not big:
                if w == 'nocache' and not (a in SMALL and b in SMALL):
                    continue
                if w == 'derived' and (OPS.index(a) + OPS.index(b)) % 4:
                    continue
                if {a, b} & {'write', 'virtual', 'union', 'iter'} and not {a, b} & {'byid', 'keys', 'counts'} and a != b:
                    continue
                if 'write' in (a, b) and 'keys' not in (a, b):
                    continue
            yield dict(world=w, ops=[a, b], bound=1)
    if big:
        for a, b in itertools.product(SMALL, repeat=2):
            if SMALL.index(a) <= SMALL.index(b):
                yield dict(world='run', ops=[a, b], bound=2)
    for a, b in itertools.product(DOPS, repeat=2):
        if DOPS.index(a) <= DOPS.index(b) and (big or 'diter' not in (a, b) and (a, b) not in (('darray', 'byid'), ('dkey', 'dkey'), ('darray', 'dkey'), ('dpulse', 'byid'))):
            yield dict(world='det', ops=[a, b], bound=1)
    for a, b in itertools.product(GOPS, repeat=2):
        if GOPS.index(a) <= GOPS.index(b):
            yield dict(world='geom', ops=[a, b], bound=1)
    for a in MICRO if not big else MICRO + SMALL:
        yield dict(world='run', ops=[a, a, a], bound=1)


def setup_worker():
    import karabo_data, karabo_data.components, karabo_data.writer, karabo_data.geometry2, karabo_data.read_machinery
    import xarray, pandas, dask.array, scipy.ndimage, matplotlib
    install_locks()


class World:
    """Objects shared by the threads; made anew for every execution"""
    def __init__(self, kind, d, env):
        import karabo_data as kd
        from karabo_data.geometry2 import AGIPD_1MGeometry
        self.kind, self.d, self.env = kind, d, env
        self.fms = env['fms']
        if kind == 'geom':
            self.geom = AGIPD_1MGeometry.from_quad_positions(env['quads'])
            return
        js = os.path.join(d, 'karabo_data_map.json')
        if kind == 'nocache' and os.path.exists(js):
            os.unlink(js)
        self.run = kd.RunDirectory(d)
        self.m = Coll(self.fms)
        self.ctrl = [self.run.select(CTRL, 'p.value')] * 3
        self.per_thread = [(self.run, self.m)] * 3
        if kind == 'derived':
            sel = {s: set(k) for s, k in self.m.sel.items() if s in (INSTA, CTRL)}
            sel[CTRL].discard('q.value')
            d1 = self.run.select([(INSTA, '*'), (CTRL, 'p.value')])
            self.per_thread[0] = (d1, Coll(self.fms[:2], sel, self.m.trains))
        elif kind == 'det':
            from karabo_data.components import AGIPD1M
            self.det = AGIPD1M(self.run)

    def op(self, op, i):
        """-> function for thread i"""
        import karabo_data as kd
        if self.kind == 'geom':
            return self.geom_op(op, i)
        dc, m = self.per_thread[i]
        t = m.trains[[0, -1, 1][i]]
        name = 'thread %d %s' % (i, op)
        env = self.env

        def byid():
            ob.train_data(t, dc.train_from_id(t)[1], m, None, name)

        def keys():
            for s in [INSTA, CTRL][::1 - 2 * (i % 2)]:
                ks = set(dc.keys_for_source(s))
                ob.fail('%s: keys of %s: %s', name, s, ks) if ks != m.sel[s] else None

        def cnts():
            c = dc.get_data_counts(INSTA, 'data.v')
            exp = {t: len(m.entry(INSTA, 'data.v', t)) for t in m.trains}
            got = {int(k): int(v) for k, v in c.items()}
            ob.fail('%s: %s, expected %s', name, got, exp) if got != exp else None

        def array():
            ob.array(dc, m, *[(INSTA, 'data.v'), (CTRL, 'p.value')][i % 2], where=name)

        def select():
            x = dc.select('*', ['*.value', 'd*'][i % 2])
            if i % 2:
                sel = {INSTA: {'data.v'}}
            else:
                sel = {CTRL: {k for k in m.sel[CTRL]}}
            ob.by_id(x, Coll(self.fms[:2], sel, m.trains), t, None, name)

        def iter_():
            ob.iterate(dc, m, None, require_all=bool(i % 2), where=name)

        def series():
            s = dc.get_series(CTRL, 'p.value')
            ts, exp = m.array(CTRL, 'p.value')
            ob.fail('%s: %s', name, s) if s.index.tolist() != ts.tolist() or not same(s.values, exp) else None

        def frame():
            df = dc.get_dataframe(fields=[(CTRL, '*.value')])
            ks = sorted(k[:-6] for k in m.sel[CTRL])
            cols = sorted(c.rsplit('/', 1)[1] for c in df.columns)
            ok = cols == ks and df.index.tolist() == m.trains and all(
                same(df[c].values, m.array(CTRL, c.rsplit('/', 1)[1] + '.value')[1]) for c in df.columns)
            ob.fail('%s: %s', name, df) if not ok else None

        def dask_():
            s, k = [(INSTA, 'data.v'), (CTRL, 'p.value')][i % 2]
            a = dc.get_dask_array(s, k).compute(scheduler='synchronous')
            exp = m.array(s, k)[1]
            ob.fail('%s: %s, expected %s', name, brief(a), brief(exp)) if not same(a, exp) else None

        def deselect():
            x = dc.deselect(INSTA)
            ob.by_id(x, Coll(self.fms[:2], {CTRL: m.sel[CTRL]}, m.trains), t, None, name)

        def strains():
            x = dc.select_trains(kd.by_id[[t]])
            files = [f for f in m.files if t in f.tset]
            mm = Coll(files, m.sel, [t])
            ob.trainids(x, mm, name)
            ob.by_id(x, mm, t, None, name)

        def union():
            x = dc.select_trains(kd.by_index[:1]).union(dc.select_trains(kd.by_index[2:]))
            mm = Coll(m.files, m.sel, [m.trains[0], m.trains[2]])
            ob.trainids(x, mm, name)
            ob.by_id(x, mm, m.trains[-1], None, name)

        def dinfo():
            s = DET % (i % 2)
            d = self.run.detector_info(s)
            ok = tuple(d['dims']) == (2, 2) and d['frames_per_train'] == 2 and d['total_frames'] == 4
            ob.fail('%s: %s', name, d) if not ok else None

        def virtual():
            p = os.path.join(env['out'], 'v%d.h5' % i)
            if os.path.exists(p):
                os.unlink(p)
            s, k = [(INSTA, 'data.v'), (CTRL, 'p.value')][i % 2]
            ds = dc.get_virtual_dataset(s, k, filename=p)
            a, exp = ds[:], m.array(s, k)[1]
            ds.file.close()
            ob.fail('%s: %s, expected %s', name, brief(a), brief(exp)) if not same(a, exp) else None

        def write():
            p = os.path.join(env['out'], 'w%d.h5' % i)
            if os.path.exists(p):
                os.unlink(p)
            dc.write(p)
            env['written'].append((p, m))

        def dexp(key, mods=(0, 1)):
            return np.stack([np.stack([m.entry(DET % k, key, t) for t in m.trains]) for k in mods])

        def darray():
            x = self.det.get_array('image.data')
            exp = dexp('image.data')
            ok = x.coords['train'].values.tolist() == m.trains and same(x.values, exp)
            ob.fail('%s: %s, expected %s', name, brief(x.values), brief(exp)) if not ok else None

        def dkey():
            x = self.det.get_array('image.cellId')
            exp = dexp('image.cellId')
            ob.fail('%s: %s, expected %s', name, brief(x.values), brief(exp)) if not same(x.values, exp) else None

        def diter():
            for j, (tid, data) in enumerate(self.det.trains()):
                exp = np.stack([m.entry(DET % k, 'image.data', m.trains[j]) for k in (0, 1)])[:, None]
                got = data['image.data'].values
                ok = tid == m.trains[j] and same(got, exp)
                ob.fail('%s: train %s: %s, expected %s', name, tid, brief(got), brief(exp)) if not ok else None

        def dpulse():
            x = self.det.get_array('image.data', pulses=kd.by_index[i % 2:i % 2 + 1])
            exp = dexp('image.data')[:, :, i % 2:i % 2 + 1]
            ob.fail('%s: %s, expected %s', name, brief(x.values), brief(exp)) if not same(x.values, exp) else None

        def key1():
            ks = set(dc.keys_for_source(CTRL))
            ob.fail('%s: keys %s', name, ks) if ks != m.sel[CTRL] else None

        def count1():
            c = dc.get_data_counts(CTRL, 'p.value')
            got = {int(k): int(v) for k, v in c.items()}
            ob.fail('%s: %s', name, got) if got != dict.fromkeys(m.trains, 1) else None

        def train1():
            x = ctrl[i].train_from_id(t)[1]
            ob.train_data(t, x, Coll(m.files, {CTRL: {'p.value'}}, m.trains), None, name)

        ctrl = self.ctrl
        return dict(byid=byid, keys=keys, counts=cnts, array=array, select=select, iter=iter_, series=series, frame=frame,
                    dask=dask_, deselect=deselect, strains=strains, union=union, dinfo=dinfo, virtual=virtual, write=write,
                    darray=darray, dkey=dkey, diter=diter, dpulse=dpulse, key1=key1, count1=count1, train1=train1)[op]

    def geom_call(self, op, i):
        g, env = self.geom, self.env
        if op == 'position':
            img, c = g.position_modules_fast(env['data'][i])
            return [img, np.asarray(c)]
        if op == 'outarray':
            a = g.output_array_for_position_fast((2,) if i else ())
            return [np.asarray(a.shape)]
        if op == 'pixels':
            return [g.get_pixel_positions(centre=not i)[i::5, ::97, ::31]]
        if op == 'coords':
            return [g.to_distortion_array()[::171, ::31]]
        if op == 'todata':
            m = np.array([3, 7, 15])[:2 + i % 2]
            return [g.data_coords_to_positions(m, np.array([100.5, 3, 509])[:len(m)], np.array([0, 100., 17])[:len(m)])]
        raise ValueError(op)

    def geom_op(self, op, i):
        def run():
            got = self.geom_call(op, i)
            exp = self.env['expected'][op, i]
            if len(got) != len(exp) or not all(same(a, b) for a, b in zip(got, exp)):
                ob.fail('thread %d %s gave %s, expected %s', i, op, [brief(x) for x in got], [brief(x) for x in exp])
        return run


def run_case(case, ctx):
    import karabo_data as kd
    d = ctx.dir()
    kind = case['world']
    specs = DET_SPECS if kind == 'det' else SPECS
    env = dict(fms=[FileModel(s, GETVAL) for s in specs], out=os.path.join(d, 'out'), written=[],
               quads=[(-525, 625), (-550, -10), (520, -160), (542.5, 475)])
    os.makedirs(env['out'])
    ops = case['ops']
    if kind == 'geom':
        r = np.arange(16 * 512 * 128, dtype='f4').reshape(16, 512, 128)
        env['data'] = [r, r[::-1].copy(), r * 2]
        env['expected'] = {}
        for i, o in enumerate(ops):
            env['expected'][o, i] = World(kind, d, env).geom_call(o, i)
    else:
        build(d, specs, GETVAL)
        with kd.RunDirectory(d):
            pass
    ctx.sample(case)
    lines = set()

    def run(prefix):
        w = World(kind, d, env)
        s = LineSched(prefix, max_steps=200000)
        tr = LineTracer(s, 2 if kind in ('run', 'derived', 'nocache') else 1, cap=2 if kind == 'geom' else None)
        s.keep_log = True
        Lock.current = s
        for i, o in enumerate(ops):
            s.spawn('T%d' % i, tr.wrap(w.op(o, i)))
        try:
            s.run()
        finally:
            Lock.current = None
        lines.update(tr.lines)
        s.world = w
        return s

    for s in explore(run, case['bound']):
        ctx.step(s.steps)
        ctx.trace()
        ctx.state(str(case['ops']), kind, tuple(c[0] for c in s.choices))
        at = switches(s.log)
        if s.problem is not None:
            ctx.fail('%s %s: %s; schedule: %s' % (kind, ops, s.problem, at))
        for t in s.threads:
            if isinstance(t.exc, Violation):
                ctx.fail('%s %s: %s; schedule: %s' % (kind, ops, t.exc.msg, at))
            elif t.exc is not None:
                ctx.fail('%s %s: %s failed with %r; schedule: %s' % (kind, ops, t.name, t.exc, at))
        w = s.world
        if kind != 'geom':
            # the shared collection is as good as before
            dc, m = w.per_thread[0]
            try:
                ob.by_id(dc, m, m.trains[1], None, 'afterwards')
                if (len(s.choices) + s.steps) % 8 == 0:
                    ob.array(dc, m, CTRL, 'p.value', 'afterwards')
                for p, mm in env['written']:
                    f = kd.H5File(p)
                    ob.by_id(f, mm, mm.trains[1], None, 'written file')
                    for x in f.files:
                        x.close()
            except Violation as e:
                ctx.fail('%s %s: %s; schedule: %s' % (kind, ops, e.msg, at))
            env['written'].clear()
            for f in w.run.files:
                f.close()


def switches(log):
    out, last = [], None
    for name, label in log:
        if name != last:
            out.append('%s@%s' % (name, label if isinstance(label, str) else '%s:%d' % label))
            last = name
    return ' '.join(out[:12])
