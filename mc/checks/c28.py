"""C28: file handles"""
import contextlib
import io
import itertools
import os
import zlib

import h5py
import numpy as np

from .. import observe as ob
from ..h5 import build, Coll, FileModel, same
from ..space import *
from .. import wide
from ..det import make_getval

LEVEL = 'model_checking'
RULE = ("every sequence of operations up to a depth (open, enter, leave normally or with an error, derive, read, iterate "
        "part of the way, go on iterating, open the same file independently) on a file, a run (with and without cache, "
        "with unusable files and one without sources); after each leave, and after leaving again at the end, the process's descriptors of "
        "data files are listed. State: distinct (opening, sequence); transition: one operation.")
ASSUMPTIONS = ["the caller keeps no h5py objects of its own", "iterators started before leaving may fail afterwards, but not give wrong data"]

KX = {'data.v': ['i4', [2]]}
KC = {'p.value': ['f8', []], 'q.value': ['u2', []]}
T = [10000, 10001, 10002]
DET = 'SPB_DET_AGIPD1M-1/DET/%dCH0:xtdf'
KD = {'image.data': ['u2', [2, 2]], 'image.pulseId': ['u8', []], 'image.cellId': ['u2', []]}
SPECS = [
    dict(name='RAW-R0001-DA01-S00000.h5', trains=T[:2], src=[[INSTA, 'I', {'data': [[1, 2], KX]}], [CTRL, 'C', {'': [None, KC]}]]),
    dict(name='RAW-R0001-DA01-S00001.h5', trains=T[2:], src=[[INSTA, 'I', {'data': [[1], KX]}], [CTRL, 'C', {'': [None, KC]}]]),
    dict(name='RAW-R0001-AGIPD00-S00000.h5', trains=T, src=[[DET % 0, 'I', {'image': [[2, 2, 2], KD]}]]),
]
GETVAL = make_getval('same')
OPENINGS = ['file', 'run', 'cached', 'bad', 'include']
OPS = ['enter', 'exit', 'error', 'sel', 'desel', 'trains', 'union', 'det', 'readall', 'read1', 'read2', 'iter', 'next', 'other', 'info', 'write', 'vds', 'enterd']
CORE = ['enter', 'exit', 'sel', 'trains', 'union', 'readall', 'read1', 'read2', 'iter', 'next', 'other']


def cases(tier):
    big = tier == 'thorough'
    yield from wide.cases()
    for o in OPENINGS:
        full = o in ('file', 'run')
        for first in range(len(OPS)):
            if big or full:
                for second in range(len(OPS)):
                    yield dict(open=o, first=first, second=second, depth=4 if big and full else 3, menu='all')
            else:
                yield dict(open=o, first=first, depth=2, menu='all')
        for first in range(len(CORE)):
            for second in range(len(CORE)):
                if big or (full and (first + second + OPENINGS.index(o)) % 6 == 0):
                    yield dict(open=o, first=first, second=second, depth=5 if big and full else 4, menu='core')


def fds(d):
    """Names of data files below d which this process has open"""
    out = []
    d = os.path.realpath(d)
    for n in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if p.startswith(d + '/') and p.endswith('.h5'):
            out.append(os.path.basename(p))
    return sorted(out)


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


# leaving by any of these is leaving
LEAVE = [Boom, GeneratorExit, KeyboardInterrupt, SystemExit, StopIteration, OSError, BaseBoom]


class World:
    def __init__(self, kd, ctx, d, case):
        self.kd, self.ctx, self.d = kd, ctx, d
        self.case = case
        o = case['open']
        self.fms = [FileModel(s, GETVAL) for s in SPECS]
        if o == 'file':
            self.dc = kd.H5File(os.path.join(d, SPECS[0]['name']))
            self.m = Coll(self.fms[:1])
        else:
            with contextlib.redirect_stderr(io.StringIO()):
                if o == 'include':
                    self.dc = kd.RunDirectory(d, include='*S00000.h5')
                    self.m = Coll([self.fms[0], self.fms[2]])
                else:
                    self.dc = kd.RunDirectory(d)
                    self.m = Coll(self.fms)
        self.derived = []        # [(collection, model)]
        self.others = []
        self.its = []            # [iterator, model, position, left since]
        self.extra = []
        self.inside = 0
        self.reads = 0
        self.vds = []

    def where(self, seq, i):
        return '%s: %s' % (self.case['open'], ' '.join(seq[:i + 1]))

    def pick(self):
        return self.derived[-1] if self.derived else (self.dc, self.m)

    def others_files(self):
        return sorted(os.path.basename(f.filename) for dc, _ in self.others for f in dc.files)

    def check_closed(self, where):
        mine = {f.spec['name'] for f in self.m.files}
        left = fds(self.d)
        for f in self.others_files():
            if f in left:
                left.remove(f)
        left = [f for f in left if f in mine or f not in {g.spec['name'] for g in self.fms}]
        self.ctx.check(not left, '%s: after leaving, still open: %s', where, left)

    def apply(self, op, where):
        """-> False if not applicable"""
        kd, ctx = self.kd, self.ctx
        if op == 'enter':
            got = self.dc.__enter__()
            ctx.check(got is self.dc, '%s: entering gave %r', where, got)
            self.inside += 1
        elif op in ('exit', 'error'):
            if not self.inside:
                return False
            self.inside -= 1
            if op == 'exit':
                r = self.dc.__exit__(None, None, None)
            else:
                boom = LEAVE[zlib.crc32(where.encode()) % len(LEAVE)]
                r = self.dc.__exit__(boom, boom(), None)
                ctx.check(not r, '%s: an error inside the block was swallowed', where)
            for it in self.its:
                it[3] = True
            self.check_closed(where)
        elif op in ('sel', 'desel', 'trains', 'union', 'det'):
            dc, m = self.pick()
            if op == 'sel':
                if INSTA not in dc.all_sources or INSTA not in m.sel:
                    return False
                self.derived.append((dc.select(INSTA, 'data.v'), Coll(m.files, {INSTA: {'data.v'}}, m.trains)))
            elif op == 'desel':
                if CTRL not in dc.all_sources or CTRL not in m.sel or 'q.value' not in m.sel[CTRL]:
                    return False
                sel = {s: set(k) for s, k in m.sel.items()}
                sel[CTRL].discard('q.value')
                self.derived.append((dc.deselect(CTRL, 'q.value'), Coll(m.files, sel, m.trains)))
            elif op == 'trains':
                if len(m.trains) < 2:
                    return False
                tr = m.trains[1:]
                files = [f for f in m.files if f.tset & set(tr)]
                self.derived.append((dc.select_trains(kd.by_index[1:]), Coll(files, m.sel, tr)))
            elif op == 'union':
                ms = [m] + [x[1] for x in self.others[-1:]]
                files = []
                for x in ms:
                    files += [f for f in x.files if f.spec['name'] not in {g.spec['name'] for g in files}]
                sel = {}
                for x in ms:
                    for s, k in x.sel.items():
                        sel.setdefault(s, set()).update(k)
                u = dc.union(*[x[0] for x in self.others[-1:]])
                self.derived.append((u, Coll(files, sel, sorted(set().union(*[x.trains for x in ms])))))
            else:
                if DET % 0 not in m.must():
                    return False
                from karabo_data.components import AGIPD1M
                self.extra.append((AGIPD1M(dc), m))
        elif op == 'enterd':
            if not self.derived:
                return False
            before = fds(self.d)
            try:
                with self.derived[-1][0]:
                    ctx.fail('%s: a derived collection works as context manager' % where)
            except Exception as e:
                if type(e).__name__ == 'Violation':
                    raise
            ctx.check(fds(self.d) == before, '%s: open files were %s, now %s', where, before, fds(self.d))
        elif op == 'readall':
            for dc, m in [(self.dc, self.m)] + self.derived[-1:]:
                ob.everything(dc, m, where, arrays=dc is self.dc)
        elif op == 'read1':
            dc, m = self.pick()
            t = m.trains[-1]
            ob.train_data(t, dc.train_from_id(t)[1], m, None, where)
            for a, m in self.extra[-1:]:
                x = a.get_array('image.data')
                ctx.check([int(t) for t in x.coords['train']] == m.trains, '%s: detector trains %s', where, x.coords['train'].values)
                for i, t in enumerate(m.trains):
                    e = m.entry(DET % 0, 'image.data', t)
                    ctx.check(same(np.ascontiguousarray(x.values[0, i]), e), '%s: detector data of train %s is %s, expected %s', where, t, x.values[0, i], e)
        elif op == 'read2':
            dc, m = self.pick()
            s = INSTA if INSTA in m.sel and INSTA in dc.all_sources else None
            if s is None:
                return False
            ob.array(dc, m, s, 'data.v', where)
            if CTRL in dc.all_sources:
                ser = dc.get_series(CTRL, 'p.value')
                tids_, exp = m.array(CTRL, 'p.value')
                ctx.check(ser.index.tolist() == tids_.tolist() and same(ser.values, exp), '%s: series %s', where, ser)
        elif op == 'iter':
            dc, m = self.pick()
            it = iter(dc.trains())
            t, res = next(it)
            ctx.check(t == m.trains[0], '%s: iteration starts at %s', where, t)
            ob.train_data(t, res, m, None, where)
            self.its.append([it, m, 1, False])
        elif op == 'next':
            if not self.its:
                return False
            rec = self.its[-1]
            it, m, pos, left = rec
            try:
                t, res = next(it)
            except StopIteration:
                ctx.check(pos == len(m.trains), '%s: iteration ended after %d trains', where, pos)
                self.its.pop()
                return True
            except Exception as e:
                ctx.check(left, '%s: going on failed with %r', where, e)
                self.its.pop()
                return True
            ctx.check(pos < len(m.trains) and t == m.trains[pos], '%s: iteration gave %s', where, t)
            ob.train_data(t, res, m, None, where)
            rec[2] += 1
        elif op == 'other':
            i = len(self.others) % 2
            dc = kd.H5File(os.path.join(self.d, SPECS[i]['name']))
            self.others.append((dc, Coll([self.fms[i]])))
        elif op == 'info':
            dc, m = self.pick()
            with contextlib.redirect_stdout(io.StringIO()):
                dc.info()
                dc.train_info(m.trains[0])
            for f in dc.files:
                ctx.check('INDEX' in f.file, '%s: no index in %s', where, f.filename)
        elif op == 'write':
            dc, m = self.pick()
            p = os.path.join(self.d, 'out', 'w%d' % len(self.vds))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            dc.write(p)
            f = kd.H5File(p)
            ob.everything(f, m, where + ' written:', arrays=False)
            with f:
                pass
        elif op == 'vds':
            dc, m = self.pick()
            if INSTA not in dc.all_sources:
                return False
            p = os.path.join(self.d, 'out', 'v%d' % len(self.vds))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            ds = dc.get_virtual_dataset(INSTA, 'data.v', filename=p)
            self.vds.append((ds, m.array(INSTA, 'data.v')[1]))
            ctx.check(same(ds[:], self.vds[-1][1]), '%s: virtual dataset %s', where, ds[:])
            # it refers to the data files itself, so the caller has to close it
            self.vds[-1][0].file.close()
        return True

    def end(self, where):
        """Leave, read everything, leave again"""
        ctx = self.ctx
        while self.inside:
            self.apply('exit', where + ' (end) exit')
        with self.dc as dc:
            ctx.check(dc is self.dc, '%s: entering gave %r', where, dc)
        self.check_closed(where + ' (end) with')
        for dc, m in [(self.dc, self.m)] + self.derived + self.others:
            ob.everything(dc, m, where + ' (end) reading again:', arrays=dc is self.dc or dc in [x[0] for x in self.derived[-1:]])
        boom = LEAVE[zlib.crc32(where.encode()) % len(LEAVE)]
        try:
            with self.dc:
                for f in self.dc.files:
                    ctx.check('INDEX' in f.file, '%s: no index in %s', where, f.filename)
                raise boom
        except boom:
            pass
        else:
            ctx.fail('%s: an error inside the block was swallowed' % where)
        self.check_closed(where + ' (end) with error')
        for dc, m in self.others:
            ob.everything(dc, m, where + ' (end) independent file:', arrays=False)
            with dc:
                pass
        left = fds(self.d)
        # derived collections may refer to independently opened files, which are closed now
        ctx.check(not left, '%s: still open at the end: %s', where, left)


def run_wide(case, ctx):
    import karabo_data as kd
    d, run, m = wide.open_run(ctx, case['wide'])
    ctx.sample(case)
    ctx.state(str(case))
    for i in range(3):
        with run as r:
            ob.everything(r, m, 'with', iterates=i == 1, arrays=i < 2)
            if i == 2:
                r.select_trains(kd.by_index[:1]).union(r.select('*', '*'))
                for f in r.files:
                    f.file
                # derived collections, although they may hold all there is
                al = [(src, '*') for src in sorted(r.all_sources)]
                for what, make in (
                        ("select('*')", lambda: r.select('*')), ("select('*', '*')", lambda: r.select('*', '*')),
                        ('select(list)', lambda: r.select(al)), ('select(dict)', lambda: r.select({x[0]: set() for x in al})),
                        ('select(keys)', lambda: r.select({x[0]: set(r.keys_for_source(x[0])) for x in al})),
                        ('select_trains(by_index[:])', lambda: r.select_trains(kd.by_index[:])),
                        ('select_trains(by_id[:])', lambda: r.select_trains(kd.by_id[:])),
                        ('select_trains(by_id[list])', lambda: r.select_trains(kd.by_id[list(r.train_ids)])),
                        ('union()', lambda: r.union()), ('union of itself', lambda: r.union(r)),
                        ('union of parts', lambda: r.select_trains(kd.by_index[:1]).union(r.select('*', '*')))):
                    c = make()
                    try:
                        with c:
                            pass
                    except Exception:
                        pass
                    else:
                        ctx.fail('%s of everything works as context manager' % what)
                    ctx.check(fds(d), '%s closed the files of the run', what)
                    ctx.step()
        left = fds(d)
        ctx.check(not left, 'after leaving, still open: %s', left)
        ctx.step()
    ob.everything(run, m, 'after leaving', iterates=False)
    ctx.trace()


def run_case(case, ctx):
    if 'wide' in case:
        return run_wide(case, ctx)
    import karabo_data as kd
    d = ctx.dir()
    build(d, SPECS, GETVAL)
    if case['open'] == 'bad':
        h5py.File(os.path.join(d, 'RAW-R0001-DA05-S00000.h5'), 'w').close()
        with open(os.path.join(d, 'RAW-R0001-DA06-S00000.h5'), 'wb') as f:
            f.write(b'\x89HDF')
        # a file without any source
        build(d, [dict(name='RAW-R0001-DA07-S00000.h5', trains=T, src=[])], GETVAL)
        # a file without any train
        build(d, [dict(name='RAW-R0001-DA01-S00002.h5', trains=[], src=[[INSTA, 'I', {'data': [[], KX]}], [CTRL, 'C', {'': [None, KC]}]])], GETVAL)
    js = os.path.join(d, 'karabo_data_map.json')
    ctx.sample(case)
    if case['open'] == 'cached':
        with kd.RunDirectory(d):
            pass
    menu = OPS if case['menu'] == 'all' else CORE
    head = [menu[case['first']]] + ([menu[case['second']]] if 'second' in case else [])
    for rest in itertools.product(menu, repeat=case['depth'] - len(head)):
        seq = head + list(rest)
        if case['open'] != 'cached' and os.path.exists(js):
            os.unlink(js)
        w = World(kd, ctx, d, case)
        ok = True
        for i, op in enumerate(seq):
            ok = w.apply(op, w.where(seq, i))
            if ok is False:
                break
            ctx.step()
        if ok is not False:
            w.end(w.where(seq, len(seq)))
            ctx.trace()
            ctx.state(case['open'], str(seq))
        else:
            # not applicable: close and go on
            for dc, m in [(w.dc, w.m)] + w.others:
                for f in dc.files:
                    f.close()
