"""C05: written files read back as the selection they were made from"""
import contextlib
import itertools
import os
import shutil

import h5py
import numpy as np

from .. import observe as ob
from ..h5 import build, Coll, same, brief
from ..space import *
from .. import wide

LEVEL = 'model_checking'
RULE = ("every placement of entries per train x split into sequence files x subsets of trains (incl. "
        "reversed) x source/key selections, written as a copy and as a virtual file, each re-opened, read "
        "through every method and validated, then written again from the written file. State: distinct "
        "(layout, selection, writer chain); transition: one written file fully compared.")
ASSUMPTIONS = ["HDF5/h5py return what was written", "files are valid (contiguous index)"]

KEYS1 = {'data.image.pixels': ['u2', [2, 2]], 'data.energy': ['f4', []]}
KEYS2 = {'hdr.len': ['i8', []]}
KEYSB = {'digit.raw': ['i4', [3]]}
KEYSC = {'pos.value': ['f8', []], 'prof.value': ['f4', [2]], 'pos.timestamp': ['u8', []]}

SELS = [None,
        {INSTA: ['data.energy']},
        {CTRL: ['pos.value', 'pos.timestamp']},
        {INSTA: ['data.image.pixels', 'hdr.len'], CTRL: ['prof.value']}]


def cases(tier):
    big = tier == 'thorough'
    yield from wide.cases()
    i = 0
    for n in (1, 2, 3, 4):
        if n == 4 and not big:
            alpha = (0, 2)
        else:
            alpha = (0, 1, 2)
        for c1 in counts(n, alpha):
            for comp in range(len(compositions(n))):
                for r in range(1, n + 1):
                    for pb in itertools.combinations(range(n), r):
                        i += 1
                        if not big and ((n == 3 and i % 5) or (n == 4 and i % 31)):
                            continue
                        if big and n == 4 and i % 3:
                            continue
                        yield dict(n=n, tid='gch'[spread(i, 3)[0]], comp=comp, c1=c1, pb=list(pb), i=i)


def layout(case):
    n, i = case['n'], case['i']
    tr = tids(case['tid'], n)
    A = [INSTA, 'I', {'data': [case['c1'], KEYS1], 'hdr': [[1 - min(1, c) for c in case['c1']], KEYS2]}]
    comp = compositions(n)[case['comp']]
    pb = case['pb']
    comps = compositions(len(pb))
    _, p0, p2, cb, fls, off = spread(i, 3, 2, 2, len(comps), 5, 2)
    specs = stream('RAW-R0001-DA01', tr, list(range(n)), comp, [A], pad=[p0, p0, p2, 0])
    # control source and a second instrument source recorded for some trains only
    C = [CTRL, 'C', {'': [None, KEYSC]}]
    B = [INSTB, 'I', {'digit': [[(j + off) % 2 for j in range(n)], KEYSB]}]
    specs += stream('RAW-R0001-DA02', tr, pb, comps[cb], [C, B], index='fls' if fls == 0 else 'fc')
    return specs


@contextlib.contextmanager
def late_collection():
    """Files opened for writing are not closed by the garbage collector before the end

    Python is free to collect the writer at any time, e.g. after the process was killed."""
    keep = []
    orig = h5py.File.__init__

    def init(self, name, mode='r', *a, **kw):
        orig(self, name, mode, *a, **kw)
        if mode != 'r':
            keep.append(self)
    h5py.File.__init__ = init
    try:
        yield
    finally:
        h5py.File.__init__ = orig
        for f in keep:
            f.close()


def check_metadata(ctx, path, where):
    with h5py.File(path, 'r') as f:
        g = f['METADATA'] if 'dataSourceId' in f['METADATA'] else f['METADATA/dataSources']
        ids, root, dev = g['dataSourceId'][:].tolist(), g['root'][:].tolist(), g['deviceId'][:].tolist()
        ctx.check([r + b'/' + d for r, d in zip(root, dev)] == ids, '%s METADATA inconsistent: %s %s %s', where, ids, root, dev)
        for d in dev:
            if d:
                ix = f['INDEX/' + d.decode()]
                ctx.check(ix['first'].shape == ix['count'].shape == f['INDEX/trainId'].shape,
                          '%s index of %s has shapes %s %s for %s trains', where, d, ix['first'].shape,
                          ix['count'].shape, f['INDEX/trainId'].shape)


def check_file(ctx, kd, path, m, where):
    from karabo_data.validation import FileValidator
    f = kd.H5File(path)
    try:
        ob.everything(f, m, where)
        for s in m.sel:
            if not m.sel[s]:
                continue
            ctx.check(s in f.all_sources, '%s source %s is missing', where, s)
            for k in m.sel[s]:
                if len(m.dtype(s, k)[1]) == 0:
                    tids_, vals = m.array(s, k)
                    if len(set(tids_.tolist())) == len(tids_):
                        ser = f.get_series(s, k)
                        ctx.check([int(t) for t in ser.index] == tids_.tolist() and same(ser.values, vals),
                                  '%s get_series(%s, %s) is %s, expected %s', where, s, k, ser, (tids_, vals))
                cnt = f.get_data_counts(s, k)
                got = {int(t): int(c) for t, c in zip(cnt.index, cnt.values)}
                exp = {t: (0 if m.entry(s, k, t) is None else len(m.entry(s, k, t))) for t in m.trains}
                ctx.check(got == exp, '%s get_data_counts(%s, %s) is %s, expected %s', where, s, k, got, exp)
        probs = FileValidator(f.files[0]).run_checks()
        ctx.check(not probs, '%s does not validate: %s', where, probs)
    finally:
        for fa in f.files:
            fa.close()
    check_metadata(ctx, path, where)


def run_wide(case, ctx):
    import karabo_data as kd
    d, run, m = wide.open_run(ctx, case['wide'])
    ctx.sample(case)
    out = ctx.dir()
    some = {s: set(sorted(k)[::2]) for s, k in m.sel.items() if sum(map(ord, s)) % 3}
    for i, (dc, mm) in enumerate([(run, m), (run.select_trains(kd.by_index[1:]), Coll([f for f in m.files if f.tset & set(m.trains[1:])], m.sel, m.trains[1:])),
                                  (run.select(some), Coll(m.files, some, m.trains)) if some else (run, m)]):
        if not set(mm.sel) <= set(dc.all_sources):
            mm = Coll(mm.files, {s: k for s, k in mm.sel.items() if s in dc.all_sources}, mm.trains)
        for how in ('write', 'write_virtual'):
            p = os.path.join(out, '%s%d.h5' % (how, i))
            getattr(dc, how)(p)
            ctx.step()
            ctx.state(str(case), i, how)
            f = kd.H5File(p)
            ob.everything(f, mm, '%s of %s:' % (how, case['wide']), iterates=False)
            for x in f.files:
                x.close()
    ctx.trace()


def run_case(case, ctx):
    if 'wide' in case:
        return run_wide(case, ctx)
    import karabo_data as kd
    specs = layout(case)
    d = ctx.dir()
    build(d, specs)
    m = Coll(models(specs))
    ctx.sample(case)
    out = ctx.dir()
    before = {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}
    with late_collection():
        explore(case, ctx, kd, d, out, m)
    after = {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}
    ctx.check(before == {f: v for f, v in after.items() if f.endswith('.h5')}, 'input files were modified')


def explore(case, ctx, kd, d, out, m):
    n = len(m.trains)
    i = case['i']
    cwd = os.getcwd()
    try:
        # half of the runs are opened by a relative path
        rel = spread(i + 5000, 2)[0]
        if rel:
            os.chdir(os.path.dirname(d))
            run = kd.RunDirectory(os.path.basename(d))
        else:
            run = kd.RunDirectory(d)
        masks = range(1, 1 << n)
        combos = [(mask, si) for mask in masks for si in range(len(SELS))]
        if not ctx.thorough:
            combos = [(ma, si) for ma, si in combos if si == 0 and (n < 3 or (ma + i) % 3 == 0)
                      or (ma + si + i) % (5 if n > 2 else 2) == 0]
        for mask, si in combos:
            sub = [m.trains[j] for j in range(n) if mask >> j & 1]
            dc = run.select_trains(kd.by_id[sub])
            rev, order, old, gone, which = spread((i * 16 + mask) * 4 + si, 4, 2, 3, 5, 2)
            rev = rev == 0 and len(sub) > 1
            if rev:
                dc = dc.select_trains(kd.by_index[::-1])
            files = [f for f in m.files if f.tset & set(sub)]
            sel = SELS[si]
            avail = Coll(files)
            if sel is None:
                mm = Coll(files, avail.sel, sub)
            else:
                if not set(sel) <= set(avail.sel):
                    continue
                mm = Coll(files, {s: set(k) for s, k in sel.items()}, sub)
                dc = dc.select({s: set(k) for s, k in sel.items()})
            ctx.state(str(case), mask, si)
            chain = [('write', 'write_virtual'), ('write_virtual', 'write')][order]
            where = 'trains %s sel %s' % (sub, si)
            p1 = os.path.join(out, 'one.h5')
            snap = os.path.join(out, 'snap.h5')
            if old == 0:
                # target exists already with other content
                with open(p1, 'wb') as f:
                    f.write(b'x' * 100)
            getattr(dc, chain[0])(p1)
            # what is on disk now is what is left if the process is killed, and what another process sees
            shutil.copyfile(p1, snap)
            check_file(ctx, kd, snap, mm, '%s %s:' % (where, chain[0]))
            ctx.step()
            f1 = kd.H5File(p1)
            p2 = os.path.join(out, 'two.h5')
            getattr(f1, chain[1])(p2)
            for fa in f1.files:
                fa.close()
            shutil.copyfile(p2, snap)
            if rel:
                os.chdir('/')    # the files must not depend on the working directory
            check_file(ctx, kd, [p2, snap][which], mm, '%s %s of %s:' % (where, chain[1], chain[0]))
            if rel:
                check_file(ctx, kd, p1, mm, '%s %s:' % (where, chain[0]))
                os.chdir(os.path.dirname(d))
            ctx.step()
            ctx.trace()
            # the files stay: they are written again at the same paths
            if gone == 0:
                os.unlink(p1)
                os.unlink(p2)
    finally:
        os.chdir(cwd)
