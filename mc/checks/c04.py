"""C04: lazy and virtual views equal the eager array"""
import itertools
import os

import h5py
import numpy as np

from .. import observe as ob
from ..h5 import build, Coll, same, brief
from ..space import *
from .. import wide

LEVEL = 'model_checking'
RULE = ("every placement of entries per train x every split into sequence files x train subsets x "
        "control / instrument keys, read as dask array and as virtual dataset; plus sparse datasets "
        "around the chunk size limit. State: distinct (layout, train subset); transition: one view compared.")
ASSUMPTIONS = ["HDF5/h5py/dask return what was written", "files are valid (contiguous index)"]

KEYS1 = {'data.image.pixels': ['u2', [3, 4]], 'data.energy': ['f4', []]}
KEYSB = {'digit.raw': ['i4', [5]]}
KEYSC = {'pos.value': ['f8', []], 'prof.value': ['f4', [4]]}


def cases(tier):
    big = tier == 'thorough'
    yield from wide.cases()
    for n in (1, 2, 3, 4):
        for ci, c1 in enumerate(counts(n)):
            for comp in range(len(compositions(n))):
                if n == 4 and not big and (ci + comp) % 8:
                    continue
                if n == 3 and not big and (ci + comp) % 2:
                    continue
                yield dict(kind='small', n=n, tid='gch'[spread(ci, 3)[0]], comp=comp, c1=c1, pb=None,
                           pad=spread(comp * 100 + ci, 2, 2, 2) + [0])
    for n in (2, 3):
        for r in range(1, n):
            for pb in itertools.combinations(range(n), r):
                for compb in range(len(compositions(r))):
                    for cb in ([0, 1, 2][:n], [2, 0, 1][:n]):
                        yield dict(kind='small', n=n, tid='g', comp=(compb + r) % len(compositions(n)), c1=[1, 0, 2][:n],
                                   pb=list(pb), compb=compb, cb=cb, pad=spread(compb * 100 + cb[0] + sum(pb), 2, 2, 2) + [0])
    # the dask chunk limit is 2 GiB: row sizes and numbers of rows around it
    G = 1 << 30
    for rowbytes, rows in itertools.product((G // 2, G - 8, G, G + 8, 2 * G, 2 * G + 8, 3 * G), (1, 2, 3, 4, 5, 7)):
        if not big and rows not in (1, 3, 4, 5):
            continue
        for split in (0, 1):
            if split and rows < 3:
                continue
            yield dict(kind='big', rowbytes=rowbytes, rows=rows, split=split)


def layout(case):
    n = case['n']
    tr = tids(case['tid'], n)
    A = [INSTA, 'I', {'data': [case['c1'], KEYS1]}]
    C = [CTRL, 'C', {'': [None, KEYSC]}]
    C2 = [CTRL + '2', 'C', {'': [None, {'pos.value': ['f8', []]}]}]
    specs = stream('RAW-R0001-DA01', tr, list(range(n)), compositions(n)[case['comp']], [A, C, C2],
                   pad=case['pad'])
    if case['pb'] is not None:
        pb = case['pb']
        B = [INSTB, 'I', {'digit': [case['cb'], KEYSB]}]
        specs += stream('RAW-R0001-DA02', tr, pb, compositions(len(pb))[case['compb']], [B])
    return specs


def check_dask(ctx, dc, m, s, k, where):
    tids_, exp = m.array(s, k)
    arr = dc.get_dask_array(s, k)
    ctx.check(arr.shape == exp.shape and arr.dtype == exp.dtype, '%s get_dask_array(%s, %s) is %s %s, expected %s %s',
              where, s, k, arr.shape, arr.dtype, exp.shape, exp.dtype)
    got = arr.compute(scheduler='synchronous')
    ctx.check(same(got, exp), '%s get_dask_array(%s, %s) computes to %s, expected %s', where, s, k, brief(got), brief(exp))
    for i in range(len(exp)):
        got = arr[i].compute(scheduler='synchronous')
        ctx.check(same(got, exp[i]), '%s get_dask_array(%s, %s)[%d] is %s, expected %s', where, s, k, i, brief(got), brief(exp[i]))
        if not ctx.thorough:
            break


def check_virtual(ctx, kd, d, dc, m, s, k, where, named):
    tids_, exp = m.array(s, k)
    fn = os.path.join(d, 'virt.h5') if named else None
    ds = dc.get_virtual_dataset(s, k, filename=fn)
    got_fn = ds.file.filename
    try:
        if named:
            ctx.check(os.path.samefile(got_fn, fn), 'virtual dataset is in %s, not %s', got_fn, fn)
        ctx.check(ds.shape == exp.shape and ds.dtype == exp.dtype, '%s get_virtual_dataset(%s, %s) is %s %s, expected %s %s',
                  where, s, k, ds.shape, ds.dtype, exp.shape, exp.dtype)
        if len(exp):
            got = ds[:]
            ctx.check(same(got, exp), '%s get_virtual_dataset(%s, %s) is %s, expected %s', where, s, k, brief(got), brief(exp))
        ds.file.close()
        if len(exp):
            f = kd.H5File(got_fn)
            mm = Coll(m.files, {s: {k}}, m.trains)
            ob.array(f, mm, s, k, where + ' file of virtual dataset:')
            ob.trainids(f, mm, where + ' file of virtual dataset:')
            for file in f.files:
                file.close()
    finally:
        os.unlink(got_fn)


def run_wide(case, ctx):
    import karabo_data as kd
    import tempfile
    tempfile.tempdir = ctx.tmp
    d, run, m = wide.open_run(ctx, case['wide'])
    n = len(m.trains)
    for sl in (slice(None), slice(1, None)):
        sub = m.trains[sl]
        dc, mm = run.select_trains(kd.by_index[sl]), Coll(m.files, m.sel, m.trains[sl])
        ctx.state(str(case), str(sl))
        for j, (s, k) in enumerate([(s, k) for s in sorted(dc.all_sources) for k in sorted(m.sel[s])]):
            if j > 12 and j % 5:
                continue
            check_dask(ctx, dc, mm, s, k, '%s:' % sl)
            check_virtual(ctx, kd, d, dc, mm, s, k, '%s:' % sl, named=j % 2)
            ctx.step(2)
    ctx.trace()


def run_case(case, ctx):
    if 'wide' in case:
        return run_wide(case, ctx)
    import karabo_data as kd
    import tempfile
    ctx.sample(case)
    if case['kind'] == 'big':
        return run_big(case, ctx)
    specs = layout(case)
    d = ctx.dir()
    tempfile.tempdir = ctx.tmp
    build(d, specs)
    m = Coll(models(specs))
    n = len(m.trains)
    run = kd.RunDirectory(d)
    keys = [(s, k) for s in sorted(m.sel) for k in sorted(m.sel[s])]
    for mask in range(1, 1 << n):
        if n >= 3 and not ctx.thorough and mask not in ((1 << n) - 1, 5, 6, 9, 13):
            continue
        sub = [m.trains[i] for i in range(n) if mask >> i & 1]
        # via a list of trains (drops files) and via source selection only
        dc = run if mask == (1 << n) - 1 else run.select_trains(kd.by_id[sub])
        mm = Coll(m.files, m.sel, sub)
        ctx.state(str(case), mask)
        where = 'trains %s:' % sub
        for j, (s, k) in enumerate(keys):
            if s not in dc.all_sources:
                ctx.check(s not in mm.must(), '%s source %s vanished', where, s)
                continue
            check_dask(ctx, dc, mm, s, k, where)
            if ctx.thorough or (j + mask) % 2 == 0:
                check_virtual(ctx, kd, d, dc, mm, s, k, where, named=(j + mask) % 4 == 0)
                ctx.step()
            ctx.step()
        # several of them at the same time
        live = []
        for s, k in keys + keys[:1]:
            if s in dc.all_sources:
                live.append((s, k, dc.get_virtual_dataset(s, k)))
        ctx.check(len({ds.file.filename for _, _, ds in live}) == len(live), '%s virtual datasets share files: %s', where,
                  [ds.file.filename for _, _, ds in live])
        for s, k, ds in live:
            exp = mm.array(s, k)[1]
            if len(exp):
                ctx.check(same(ds[:], exp), '%s get_virtual_dataset(%s, %s) changed to %s', where, s, k, brief(ds[:]))
        for s, k, ds in live:
            fn = ds.file.filename
            ds.file.close()
            os.unlink(fn)
        ctx.trace()


def run_big(case, ctx):
    """Sparse files: huge logical size, only a few bytes stored"""
    import karabo_data as kd
    d = ctx.dir()
    rows, ncol = case['rows'], case['rowbytes'] // 8
    src, key = INSTB, 'digit.raw'
    parts = [list(range(rows))] if not case['split'] else [list(range(rows - 2)), list(range(rows - 2, rows))]
    cols = [0, 1, ncol // 2, ncol - 1]
    for i, rr in enumerate(parts):
        spec = dict(name='RAW-R0001-DA01-S%05d.h5' % i, trains=[10000 + r for r in rr],
                    src=[[src, 'I', {'digit': [[1] * len(rr), {}]}]])
        p = build(d, [spec])[0]
        with h5py.File(p, 'r+') as f:
            ds = f.create_dataset('INSTRUMENT/%s/digit/raw' % src, shape=(len(rr), ncol), dtype='i8', chunks=(1, 512))
            for j, r in enumerate(rr):
                for c in cols:
                    ds[j, c] = 1000 * r + cols.index(c) + 1
    run = kd.RunDirectory(d)
    arr = run.get_dask_array(src, key)
    ctx.state(str(case))
    ctx.check(arr.shape == (rows, ncol), 'dask array shape %s, expected %s', arr.shape, (rows, ncol))
    limit = 2 * 1024 ** 3
    for sz in arr.chunks[0]:
        ctx.check(sz * ncol * 8 <= limit or sz == 1, 'dask chunk of %d rows is %d bytes', sz, sz * ncol * 8)
    for c in sorted(set(cols)):
        got = arr[:, c:c + 1].compute(scheduler='synchronous')
        exp = [[1000 * r + cols.index(c) + 1] for r in range(rows)]
        ctx.check(got.tolist() == exp, 'column %d of big dask array is %s, expected %s', c, got.tolist(), exp)
        ctx.step()
    for r in range(rows):
        got = arr[r, :2].compute(scheduler='synchronous')
        ctx.check(got.tolist() == [1000 * r + 1, 1000 * r + 2], 'row %d of big dask array starts %s', r, got.tolist())
        ctx.step()
    ctx.trace()
